From eef60c1660344220dd9c2752d0e16fbb2a4f4e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 001/123] fix: const references to numbers generated an
 uninitialized const variable

The handlers for int&, short&, float& and friends, and for int*, took the
variable type by cutting the last character off the parameter type, which
kept the const of 'const int &' and produced code that does not compile.
Declare the variable with the target type instead.
---
 pybindgen/typehandlers/floattype.py |  2 +-
 pybindgen/typehandlers/inttype.py   | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index d51711f..7ed516d 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -117,7 +117,7 @@ class FloatRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('f', ['&'+name], self.name)
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index d8f953e..67c3343 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -193,7 +193,7 @@ class IntPtrParam(PointerParameter):
                     % vars())
                 wrapper.build_params.add_parameter("N", [name_obj])
         else:
-            name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+            name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
             wrapper.call_params.append('&'+name)
             if self.direction & self.DIRECTION_IN:
                 wrapper.parse_params.add_parameter('i', ['&'+name], self.name)
@@ -216,7 +216,7 @@ class IntRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('i', ['&'+name], self.name)
@@ -237,7 +237,7 @@ class UnsignedIntRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('I', ['&'+name], self.name)
@@ -314,7 +314,7 @@ class UInt16RefParam(Parameter):
             wrapper.parse_params.add_parameter("H", [self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('H', ['&'+name], self.name)
@@ -354,7 +354,7 @@ class Int16RefParam(Parameter):
             wrapper.parse_params.add_parameter("h", [self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('h', ['&'+name], self.name)
@@ -392,7 +392,7 @@ class UInt8RefParam(Parameter):
             wrapper.parse_params.add_parameter("B", [self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('B', ['&'+name], self.name)
@@ -449,7 +449,7 @@ class Int8RefParam(Parameter):
             wrapper.parse_params.add_parameter("b", [self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
-- 
2.43.0


From 41e746a00d186ad29da1889bc563806879da5213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 002/123] fix: 8 and 16 bit integers out of range were
 truncated

The by-value parameters of 8 and 16 bit types only checked the upper bound,
so that -1 passed for uint16_t arrived as 65535 and -40000 passed for int16_t
as 25536; the return values of Python overrides lacked the lower bound for
unsigned types and had it wrong for int8_t (128 accepted, -128 refused).
---
 pybindgen/typehandlers/inttype.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 67c3343..2814a9c 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -256,7 +256,7 @@ class UInt16Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xffff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xffff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -297,7 +297,7 @@ class UInt16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xffff' % name,
+        wrapper.before_call.write_error_check('%s > 0xffff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -336,7 +336,7 @@ class Int16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7fff' % name,
+        wrapper.before_call.write_error_check('%s > 0x7fff || %s < -0x8000' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -375,7 +375,7 @@ class UInt8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xff' % name,
+        wrapper.before_call.write_error_check('%s > 0xff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -411,7 +411,7 @@ class UInt8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -432,7 +432,7 @@ class Int8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7f' % name,
+        wrapper.before_call.write_error_check('%s > 0x7f || %s < -0x80' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -466,7 +466,7 @@ class Int8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 128 || %s < -127' % (tmp_var, tmp_var),
+        wrapper.after_call.write_error_check('%s > 127 || %s < -128' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
-- 
2.43.0


From af205399de3efb93326bfdc98e9bda9cc0472a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 003/123] fix: 8 and 16 bit integer references and pointers
 took values out of range

The 'B' and 'H' formats do not check for overflow, and 'b' is for unsigned
chars, so that -1 was refused and 200 accepted (as -56) for int8_t&.  Parse
an int and check its range, as the by-value parameters do.
---
 pybindgen/typehandlers/inttype.py | 36 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 2814a9c..372bd1b 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -10,6 +10,18 @@ from .base import ReturnValue, Parameter, PointerParameter, PointerReturnValue,
      ReverseWrapperBase, ForwardWrapperBase, TypeConfigurationError, NotSupportedError
 
 
+def _parse_small_int(wrapper, code_block, param, target, minimum, maximum):
+    """
+    Parse an integer of less than 32 bits into the C expression `target`;
+    a value outside the range minimum..maximum is an error.
+    """
+    tmp_var = wrapper.declarations.declare_variable("int", param.name + "_int")
+    wrapper.parse_params.add_parameter('i', ['&'+tmp_var], param.name)
+    code_block.write_error_check('%s > %s || %s < %s' % (tmp_var, maximum, tmp_var, minimum),
+                                 'PyErr_SetString(PyExc_ValueError, "Out of range");')
+    code_block.write_code('%s = %s;' % (target, tmp_var))
+
+
 class IntParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN]
@@ -311,13 +323,13 @@ class UInt16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('H', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("H", [self.value], self.name)
+            _parse_small_int(wrapper, wrapper.after_call, self, self.value, '0', '0xffff')
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('H', ['&'+name], self.name)
+            _parse_small_int(wrapper, wrapper.before_call, self, name, '0', '0xffff')
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("H", [name])
 
@@ -389,13 +401,13 @@ class UInt8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", [self.value], self.name)
+            _parse_small_int(wrapper, wrapper.after_call, self, self.value, '0', '0xff')
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('B', ['&'+name], self.name)
+            _parse_small_int(wrapper, wrapper.before_call, self, name, '0', '0xff')
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("B", [name])
 
@@ -446,13 +458,13 @@ class Int8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            _parse_small_int(wrapper, wrapper.after_call, self, self.value, '-0x80', '0x7f')
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            _parse_small_int(wrapper, wrapper.before_call, self, name, '-0x80', '0x7f')
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -695,13 +707,13 @@ class Int8PtrParam(PointerParameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', ['*'+self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            _parse_small_int(wrapper, wrapper.after_call, self, '*'+self.value, '-0x80', '0x7f')
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable('int8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            _parse_small_int(wrapper, wrapper.before_call, self, name, '-0x80', '0x7f')
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -724,13 +736,13 @@ class UInt8PtrParam(PointerParameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', ['*'+self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", [self.value], self.name)
+            _parse_small_int(wrapper, wrapper.after_call, self, '*'+self.value, '0', '0xff')
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable('uint8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('B', ['&'+name], self.name)
+            _parse_small_int(wrapper, wrapper.before_call, self, name, '0', '0xff')
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("B", [name])
 
@@ -752,12 +764,12 @@ class UnsignedInt16PtrParam(PointerParameter):
             wrapper.build_params.add_parameter('H', ['*'+self.value])
 
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter('H', [self.value], self.name)
+            _parse_small_int(wrapper, wrapper.after_call, self, '*'+self.value, '0', '0xffff')
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name, self.default_value)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('H', ['&'+name], self.name)
+            _parse_small_int(wrapper, wrapper.before_call, self, name, '0', '0xffff')
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter('H', [name])
-- 
2.43.0


From c1a15a5b97c5eefcd64a0e45aeef1ad8bedc00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 004/123] fix: output references of numbers crashed when a
 Python override set them

For 'int &' and the like the parse call got the value of the variable in
place of its address.
---
 pybindgen/typehandlers/doubletype.py | 2 +-
 pybindgen/typehandlers/floattype.py  | 2 +-
 pybindgen/typehandlers/inttype.py    | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/typehandlers/doubletype.py b/pybindgen/typehandlers/doubletype.py
index 6c589ed..74cc912 100644
--- a/pybindgen/typehandlers/doubletype.py
+++ b/pybindgen/typehandlers/doubletype.py
@@ -68,7 +68,7 @@ class DoubleRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('d', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("d", [self.value], self.name)
+            wrapper.parse_params.add_parameter("d", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'double&'
diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index 7ed516d..1c43665 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -113,7 +113,7 @@ class FloatRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('f', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("f", [self.value], self.name)
+            wrapper.parse_params.add_parameter("f", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 372bd1b..8dede30 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -224,7 +224,7 @@ class IntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('i', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("i", [self.value], self.name)
+            wrapper.parse_params.add_parameter("i", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -245,7 +245,7 @@ class UnsignedIntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('I', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("I", [self.value], self.name)
+            wrapper.parse_params.add_parameter("I", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -363,7 +363,7 @@ class Int16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('h', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("h", [self.value], self.name)
+            wrapper.parse_params.add_parameter("h", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
-- 
2.43.0


From 0c34beb1148b1827915eaea0107ce298eee249c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 005/123] fix: array parameters of unsigned int did not compile

The element check was not interpolated and the conversion function used does
not exist; the element check of float arrays named a variable that is called
otherwise when there is more than one such parameter.
---
 pybindgen/typehandlers/floattype.py | 2 +-
 pybindgen/typehandlers/inttype.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index 1c43665..626aa25 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -82,7 +82,7 @@ class FloatPtrParam(Parameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyFloat_Check(element)',
+                        '!PyFloat_Check(%s)' % elem,
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i floats");'
                         % (self.name, self.array_length))
                 wrapper.before_call.write_code("%(name)s[%(idx)s] = (float) PyFloat_AsDouble(%(elem)s);" % vars())
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 8dede30..24f8be2 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -103,10 +103,11 @@ class UnsignedIntPtrParam(PointerParameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyNumber_Check(%(elem)s)',
+                        '!PyNumber_Check(%s)' % elem,
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i ints / longs");'
                         % (self.name, self.array_length))
-                wrapper.before_call.write_code("%(name)s[%(idx)s] = PyLong_AsUnsignedInt(%(elem)s);" % vars())
+                wrapper.before_call.write_code("%(name)s[%(idx)s] = (unsigned int) PyLong_AsUnsignedLongMask(%(elem)s);" % vars())
+                wrapper.before_call.write_error_check('PyErr_Occurred()')
 
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-- 
2.43.0


From b1756b6dc9c8ec149730d557a6a3cc628c00ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 006/123] fix: errors from an object's truth value were ignored

A bool parameter whose argument raises in __bool__ ran the C++ function with
true and left the error set, which surfaced as SystemError.
---
 pybindgen/typehandlers/booltype.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index 5fadd2d..5c452a4 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -26,6 +26,7 @@ class BoolParam(Parameter):
             wrapper.before_call.write_code("%s = %s? (bool) PyObject_IsTrue(%s) : %s;" % (name, py_name, py_name, self.default_value))
         else:
             wrapper.before_call.write_code("%s = (bool) PyObject_IsTrue(%s);" % (name, py_name))
+        wrapper.before_call.write_error_check('PyErr_Occurred()')
         wrapper.call_params.append(name)
 
 
@@ -41,6 +42,7 @@ class BoolReturn(ReturnValue):
         wrapper.parse_params.add_parameter("O", ["&"+py_name], prepend=True)
         wrapper.after_call.write_code(
             "%s = PyObject_IsTrue(%s);" % (self.value, py_name))
+        wrapper.after_call.write_error_check('PyErr_Occurred()')
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter(
@@ -63,6 +65,7 @@ class BoolPtrParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
             wrapper.after_call.write_code(
                 "*%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
+            wrapper.after_call.write_error_check('PyErr_Occurred()')
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool*'
@@ -74,6 +77,7 @@ class BoolPtrParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
             wrapper.before_call.write_code(
                 "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            wrapper.before_call.write_error_check('PyErr_Occurred()')
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % name])
@@ -95,6 +99,7 @@ class BoolRefParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.name)
             wrapper.after_call.write_code(
                 "%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
+            wrapper.after_call.write_error_check('PyErr_Occurred()')
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool&'
@@ -105,6 +110,7 @@ class BoolRefParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
             wrapper.before_call.write_code(
                 "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            wrapper.before_call.write_error_check('PyErr_Occurred()')
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % (name,)])
-- 
2.43.0


From 18b6964e7efd7201e7fe33c298d26df3e8cceaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 007/123] fix: errors converting the result of a Python
 override were left pending

A result of a virtual method that is None-checked, range-checked or otherwise
refused after parsing set a Python exception and went on in C++ with it
pending; the next return to the interpreter failed with SystemError.  Report
it like the other errors of overrides.
---
 pybindgen/typehandlers/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 528d15c..d825f76 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -592,7 +592,11 @@ class ReverseWrapperBase(object):
         gil_state_var = self.declarations.declare_variable('PyGILState_STATE', '__py_gil_state')
         self.before_call.write_code('%s = (PyEval_ThreadsInitialized() ? PyGILState_Ensure() : (PyGILState_STATE) 0);'
                                     % gil_state_var)
-        self.before_call.add_cleanup_code('if (PyEval_ThreadsInitialized())\n'
+        ## this is the last cleanup action: report any error that is still pending,
+        ## there is no python caller to raise it to
+        self.before_call.add_cleanup_code('if (PyErr_Occurred())\n'
+                                          '    PyErr_Print();\n'
+                                          'if (PyEval_ThreadsInitialized())\n'
                                           '    PyGILState_Release(%s);' % gil_state_var)
 
 
-- 
2.43.0


From 4ff8821c26fe7e353379bd00c8cdf75b70d27148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 008/123] fix: functions returning std::string const & did not
 compile

The variable holding the result was declared const, and then assigned.
---
 pybindgen/typehandlers/ctypeparser/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/typehandlers/ctypeparser/__init__.py b/pybindgen/typehandlers/ctypeparser/__init__.py
index 5c05ebc..c06bdba 100644
--- a/pybindgen/typehandlers/ctypeparser/__init__.py
+++ b/pybindgen/typehandlers/ctypeparser/__init__.py
@@ -350,6 +350,8 @@ class TypeTraits(object):
             self.target.remove_modifiers()
         self.ctype_no_const_no_ref = self.ctype_no_const.clone()
         self.ctype_no_const_no_ref.remove_outer_modifier("&")
+        if self.type_is_reference and self.target_is_const:
+            self.ctype_no_const_no_ref.remove_outer_modifier("const")
 
     def make_const(self):
         """
-- 
2.43.0


From 0ede560d2ac1baf32666a9f2c48901870543ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 009/123] fix: overrides returning several values were always
 rejected

The result of a Python override was wrapped in a one element tuple even when
it already was the tuple with the return value and the output parameters, so
parsing it always failed.  Now it is only wrapped when a single value is
expected.
---
 pybindgen/typehandlers/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index d825f76..9bf5dd6 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -303,6 +303,12 @@ class ParseTupleParameters(object):
     def is_empty(self):
         return self.get_parameters() == ['""']
 
+    def get_n_parameters(self):
+        """
+        returns the number of values that will be parsed
+        """
+        return len([item for item in self._parse_tuple_items if item[0]])
+
     def get_parameters(self):
         """
         returns a list of parameters to pass into a
@@ -646,7 +652,13 @@ class ReverseWrapperBase(object):
         else:
             ## parse the return value
             ## this ensures that py_retval is always a tuple
-            self.before_call.write_code('py_retval = Py_BuildValue((char*) "(N)", py_retval);')
+            if self.parse_params.get_n_parameters() == 1:
+                self.before_call.write_code('py_retval = Py_BuildValue((char*) "(N)", py_retval);')
+            else:
+                self.before_call.write_error_check(
+                    '!PyTuple_Check(py_retval)',
+                    'PyErr_SetString(PyExc_TypeError, "function/method should return a tuple of %i values");'
+                    % self.parse_params.get_n_parameters())
 
             parse_tuple_params = ['py_retval']
             parse_params = self.parse_params.get_parameters()
-- 
2.43.0


From 04e4e929610d491848dcf1e92c40fe6b1b1de66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 010/123] fix: results of string functions came after the
 output parameters

The return values of type char, char*, std::string and Glib::ustring were not
put in front of the output parameters, in one direction or in both, unlike
those of every other type.
---
 pybindgen/typehandlers/stringtype.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index d98a42a..b3ff828 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -202,7 +202,7 @@ class CharReturn(ReturnValue):
         wrapper.parse_params.add_parameter("c", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value])
+        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value], prepend=True)
 
 
 class CStringReturn(PointerReturnValue):
@@ -217,10 +217,10 @@ class CStringReturn(PointerReturnValue):
         return "return NULL;"
 
     def convert_python_to_c(self, wrapper):
-        wrapper.parse_params.add_parameter("s", ['&'+self.value])
+        wrapper.parse_params.add_parameter("s", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("s", [self.value])
+        wrapper.build_params.add_parameter("s", [self.value], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("free(retval);")
             wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, wrapper.function_name))
@@ -236,7 +236,7 @@ class StdStringReturn(ReturnValue):
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
         len_ = wrapper.declarations.declare_variable("Py_ssize_t", "retval_len")
-        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_])
+        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], prepend=True)
         wrapper.after_call.write_code(
             "%s = std::string(%s, %s);" % (self.value, ptr, len_))
 
@@ -392,7 +392,7 @@ class GlibStringReturn(ReturnValue):
 
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
-        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr])
+        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], prepend=True)
         wrapper.after_call.write_code(
             "%s = Glib::ustring(%s);" % (self.value, ptr))
 
-- 
2.43.0


From bedc9561721e3237277ebf0e016cc44c77a29fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 011/123] fix: C strings returned by a Python override dangled

The char* returned to C++ pointed into a Python string that was released
before the virtual method wrapper returned.  Keep the string until the next
call.
---
 pybindgen/typehandlers/stringtype.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index b3ff828..1458f4c 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -218,6 +218,16 @@ class CStringReturn(PointerReturnValue):
 
     def convert_python_to_c(self, wrapper):
         wrapper.parse_params.add_parameter("s", ['&'+self.value], prepend=True)
+        # the C string belongs to the Python string: keep the Python
+        # string alive until the next call
+        py_str = wrapper.declarations.declare_variable("static PyObject *", "retval_str", "NULL")
+        wrapper.after_call.write_code(
+            "{\n"
+            "    PyObject *old_%(str)s = %(str)s;\n"
+            "    %(str)s = PyTuple_GET_ITEM(py_retval, 0);\n"
+            "    Py_INCREF(%(str)s);\n"
+            "    Py_XDECREF(old_%(str)s);\n"
+            "}" % dict(str=py_str))
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter("s", [self.value], prepend=True)
-- 
2.43.0


From 6e649807aeb70e963ebfb857d16e3ba5dd70bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 012/123] fix: functions added as methods without a custom name
 were lost

They were registered under the name None.
---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9364adc..21a2985 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1433,7 +1433,7 @@ public:
         if isinstance(method, CppMethod):
             name = method.mangled_name
         elif isinstance(method, function.Function):
-            name = method.custom_name
+            name = method.mangled_name
             assert isinstance(method.parameters[0], CppClassParameterBase)
             assert method.parameters[0].cpp_class is self, \
                 "expected first parameter to be of class %s, but it is of class %s" % \
-- 
2.43.0


From 3b2c12a956750eb1f95cb696533c9eee4a2a94d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 013/123] fix: default values of references, pointers and float
 were ignored

A declared default value of a float, a number reference, a Glib::ustring
reference, a class or smart pointer (other than NULL) or an int pointer was
ignored or did not compile, so that leaving the argument out raised TypeError,
passed something else, or made the generation fail.
---
 pybindgen/cppclass.py                | 13 +++++--
 pybindgen/typehandlers/booltype.py   | 17 ++++++---
 pybindgen/typehandlers/doubletype.py |  5 +--
 pybindgen/typehandlers/floattype.py  |  9 ++---
 pybindgen/typehandlers/inttype.py    | 52 ++++++++++++++--------------
 pybindgen/typehandlers/smart_ptr.py  |  7 ++--
 pybindgen/typehandlers/stringtype.py | 17 ++++++---
 7 files changed, 74 insertions(+), 46 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 21a2985..5aff275 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3451,6 +3451,11 @@ class CppClassPtrParameter(CppClassParameterBase):
             value_ptr = wrapper.declarations.declare_variable("%s*" % self.cpp_class.full_name,
                                                               "%s_ptr" % self.name)
 
+            if self.default_value in [None, 'NULL', '0']:
+                default_value = 'NULL'
+            else:
+                default_value = "(%s*) (%s)" % (self.cpp_class.full_name, self.default_value)
+
             if self.null_ok:
                 num = wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name, optional=bool(self.default_value))
 
@@ -3467,14 +3472,16 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                "    else\n"
                                                "        %(VALUE)s = %(PYNAME)s->obj;\n"
                                                "} else {\n"
-                                               "    %(VALUE)s = NULL;\n"
-                                               "}" % dict(PYNAME=self.py_name, VALUE=value_ptr))
+                                               "    %(VALUE)s = %(DEFAULT)s;\n"
+                                               "}" % dict(PYNAME=self.py_name, VALUE=value_ptr,
+                                                          DEFAULT=default_value))
 
             else:
 
                 wrapper.parse_params.add_parameter(
                     'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
-                wrapper.before_call.write_code("%s = (%s ? %s->obj : NULL);" % (value_ptr, self.py_name, self.py_name))
+                wrapper.before_call.write_code("%s = (%s ? %s->obj : %s);" % (value_ptr, self.py_name, self.py_name,
+                                                                              default_value))
 
         value = self.transformation.transform(self, wrapper.declarations, wrapper.before_call, value_ptr)
         wrapper.call_params.append(value)
diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index 5c452a4..e908609 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -103,13 +103,20 @@ class BoolRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool&'
-        name = wrapper.declarations.declare_variable("bool", self.name)
+        name = wrapper.declarations.declare_variable("bool", self.name, self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name)
-            wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.before_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name,
+                                                            initializer=(self.default_value and 'NULL' or None))
+            wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value,
+                                               optional=bool(self.default_value))
+            if self.default_value:
+                wrapper.before_call.write_code(
+                    "if (%s)\n"
+                    "    %s = PyObject_IsTrue(%s);" % (py_name, name, py_name,))
+            else:
+                wrapper.before_call.write_code(
+                    "%s = PyObject_IsTrue(%s);" % (name, py_name,))
             wrapper.before_call.write_error_check('PyErr_Occurred()')
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
diff --git a/pybindgen/typehandlers/doubletype.py b/pybindgen/typehandlers/doubletype.py
index 74cc912..dd4a86f 100644
--- a/pybindgen/typehandlers/doubletype.py
+++ b/pybindgen/typehandlers/doubletype.py
@@ -72,9 +72,10 @@ class DoubleRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'double&'
-        name = wrapper.declarations.declare_variable('double', self.name)
+        name = wrapper.declarations.declare_variable('double', self.name, self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('d', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('d', ['&'+name], self.name,
+                                               optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("d", [name])
diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index 626aa25..743f9cc 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -17,8 +17,8 @@ class FloatParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name)
-        wrapper.parse_params.add_parameter('f', ['&'+name], self.value)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name, self.default_value)
+        wrapper.parse_params.add_parameter('f', ['&'+name], self.value, optional=bool(self.default_value))
         wrapper.call_params.append(name)
 
 
@@ -117,9 +117,10 @@ class FloatRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
-        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name, self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('f', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('f', ['&'+name], self.name,
+                                               optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("f", [name])
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 24f8be2..cf2ef2d 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -10,13 +10,13 @@ from .base import ReturnValue, Parameter, PointerParameter, PointerReturnValue,
      ReverseWrapperBase, ForwardWrapperBase, TypeConfigurationError, NotSupportedError
 
 
-def _parse_small_int(wrapper, code_block, param, target, minimum, maximum):
+def _parse_small_int(wrapper, code_block, param, target, minimum, maximum, default_value=None):
     """
     Parse an integer of less than 32 bits into the C expression `target`;
     a value outside the range minimum..maximum is an error.
     """
-    tmp_var = wrapper.declarations.declare_variable("int", param.name + "_int")
-    wrapper.parse_params.add_parameter('i', ['&'+tmp_var], param.name)
+    tmp_var = wrapper.declarations.declare_variable("int", param.name + "_int", default_value)
+    wrapper.parse_params.add_parameter('i', ['&'+tmp_var], param.name, optional=bool(default_value))
     code_block.write_error_check('%s > %s || %s < %s' % (tmp_var, maximum, tmp_var, minimum),
                                  'PyErr_SetString(PyExc_ValueError, "Out of range");')
     code_block.write_code('%s = %s;' % (target, tmp_var))
@@ -178,30 +178,24 @@ class IntPtrParam(PointerParameter):
     def convert_python_to_c(self, wrapper):
         #import sys
         #sys.stderr.write("***************"  +self.default_value + "\n")
-        optional = bool(self.default_value in ['NULL', '0'])
+        optional = (self.default_value in ['NULL', '0']) and (self.direction & self.DIRECTION_IN)
         if optional:
-            name_int = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name+"_int")
+            name_int = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name+"_int")
             name_obj = wrapper.declarations.declare_variable("PyObject*", self.name+"_obj", "NULL")
             name_ptr = wrapper.declarations.declare_variable(self.ctype_no_const, self.name+"_ptr")
             wrapper.call_params.append(name_ptr)
-            if self.direction & self.DIRECTION_IN:
-                wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
-                wrapper.before_call.write_code(
-                    "if (%(name_obj)s) {\n"
-                    "    %(name_int)s = PyInt_AsLong(%(name_obj)s);\n"
-                    "    %(name_ptr)s = &%(name_obj)s;\n"
-                    "} else {\n"
-                    "    %(name_ptr)s = NULL;\n"
-                    "}\n"
-                    % vars())
-                wrapper.before_call.write_error_check("PyErr_Occurred()")
+            wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
+            wrapper.before_call.write_error_check(
+                "%(name_obj)s && !PyArg_Parse(%(name_obj)s, (char *) \"i\", &%(name_int)s)" % vars())
+            wrapper.before_call.write_code(
+                "%(name_ptr)s = (%(name_obj)s ? &%(name_int)s : NULL);" % vars())
             if self.direction & self.DIRECTION_OUT:
                 wrapper.after_call.write_code(
                     "if (%(name_obj)s) {\n"
                     "    %(name_obj)s = PyInt_FromLong(%(name_int)s);\n"
                     "} else {\n"
                     "    %(name_obj)s = Py_None;\n"
-                    "    Py_INCREC(%(name_obj)s);\n"
+                    "    Py_INCREF(%(name_obj)s);\n"
                     "}\n"
                     % vars())
                 wrapper.build_params.add_parameter("N", [name_obj])
@@ -229,10 +223,11 @@ class IntRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
-        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name, self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('i', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('i', ['&'+name], self.name,
+                                               optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("i", [name])
 
@@ -250,10 +245,11 @@ class UnsignedIntRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
-        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name, self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('I', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('I', ['&'+name], self.name,
+                                               optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("I", [name])
 
@@ -330,7 +326,8 @@ class UInt16RefParam(Parameter):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            _parse_small_int(wrapper, wrapper.before_call, self, name, '0', '0xffff')
+            _parse_small_int(wrapper, wrapper.before_call, self, name, '0', '0xffff',
+                             self.default_value)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("H", [name])
 
@@ -367,10 +364,11 @@ class Int16RefParam(Parameter):
             wrapper.parse_params.add_parameter("h", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name, self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('h', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('h', ['&'+name], self.name,
+                                               optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("h", [name])
 
@@ -408,7 +406,8 @@ class UInt8RefParam(Parameter):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            _parse_small_int(wrapper, wrapper.before_call, self, name, '0', '0xff')
+            _parse_small_int(wrapper, wrapper.before_call, self, name, '0', '0xff',
+                             self.default_value)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("B", [name])
 
@@ -465,7 +464,8 @@ class Int8RefParam(Parameter):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            _parse_small_int(wrapper, wrapper.before_call, self, name, '-0x80', '0x7f')
+            _parse_small_int(wrapper, wrapper.before_call, self, name, '-0x80', '0x7f',
+                             self.default_value)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index c0e661b..121f499 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -193,14 +193,17 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                                            "    else\n"
                                            "        %(VALUE)s = %(PYNAME)s->obj;\n"
                                            "} else {\n"
-                                           "    %(VALUE)s = NULL;\n"
-                                           "}" % dict(PYNAME=self.py_name, VALUE=value_ptr))
+                                           "    %(VALUE)s = %(DEFAULT)s;\n"
+                                           "}" % dict(PYNAME=self.py_name, VALUE=value_ptr,
+                                                      DEFAULT=(self.default_value or 'NULL')))
 
         else:
 
             wrapper.parse_params.add_parameter(
                 'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
             wrapper.before_call.write_code("if (%s) { %s = %s->obj; }" % (self.py_name, value_ptr, self.py_name))
+            if self.default_value:
+                wrapper.before_call.write_code("else { %s = %s; }" % (value_ptr, self.default_value))
 
         wrapper.call_params.append(value_ptr)
         
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index 1458f4c..d672653 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -329,14 +329,23 @@ class GlibStringRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable("const char *", self.name)
+        name = wrapper.declarations.declare_variable("const char *", self.name, "NULL")
         name_std = wrapper.declarations.declare_variable("Glib::ustring", self.name + '_std')
         wrapper.call_params.append(name_std)
 
         if self.direction & Parameter.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value)
-            wrapper.before_call.write_code('%s = Glib::ustring(%s);' %
-                                           (name_std, name))
+            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value,
+                                               optional=(self.default_value is not None))
+            if self.default_value is None:
+                wrapper.before_call.write_code('%s = Glib::ustring(%s);' %
+                                               (name_std, name))
+            else:
+                wrapper.before_call.write_code(
+                    'if (%s)\n'
+                    '    %s = Glib::ustring(%s);\n'
+                    'else\n'
+                    '    %s = %s;' %
+                    (name, name_std, name, name_std, self.default_value))
 
         if self.direction & Parameter.DIRECTION_OUT:
             wrapper.build_params.add_parameter("s#", ['('+name_std+').c_str()', '('+name_std+').bytes()'])
-- 
2.43.0


From 5a131f784979dcec5ca690ef85d5a33a666ee2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 014/123] fix: failing overrides freed objects passed for
 in-place modification

---
 pybindgen/cppclass.py | 99 ++++++++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 54 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 5aff275..7138f2a 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2916,6 +2916,44 @@ class CppClassParameterBase(Parameter):
         ## 'self' parameter of a method wrapper
         self.take_value_from_python_self = False
 
+    def _add_detach_cleanup(self, wrapper, py_name, value):
+        """
+        Reverse wrappers, out/inout case: adds the code that, whether the
+        python call succeeds or fails, detaches the "temporary wrapper"
+        (a variable that holds a reference, or NULL) from the C++
+        object, which is not ours, and drops the reference.
+
+        :param value: C++ expression for the object (not pointer to it)
+        """
+        block = CodeBlock(wrapper.error_return, wrapper.declarations)
+        block.write_code("if (%s) {" % py_name)
+        block.indent()
+        self.cpp_class.wrapper_registry.write_unregister_wrapper(block, py_name, "%s->obj" % py_name)
+        if self.cpp_class.has_copy_constructor:
+            ## if after the call we notice the callee kept a reference
+            ## to the pyobject, we then swap pywrapper->obj for a copy
+            ## of the original object.  Else the ->obj pointer is
+            ## simply erased (we never owned this object in the first
+            ## place).
+            block.write_code(
+                "if (Py_REFCNT(%s) == 1)\n"
+                "    %s->obj = NULL;\n"
+                "else {" % (py_name, py_name))
+            block.indent()
+            self.cpp_class.write_create_instance(block, "%s->obj" % py_name, value)
+            self.cpp_class.wrapper_registry.write_register_new_wrapper(block, py_name, "%s->obj" % py_name)
+            self.cpp_class.write_post_instance_creation_code(block, "%s->obj" % py_name, value)
+            block.unindent()
+            block.write_code('}')
+        else:
+            ## it's not safe for the python wrapper to keep a
+            ## pointer to the object anymore; just set it to NULL.
+            block.write_code("%s->obj = NULL;" % (py_name,))
+        block.write_code("Py_DECREF(%s);" % py_name)
+        block.unindent()
+        block.write_code("}")
+        wrapper.before_call.add_cleanup_code(block.sink.flush().rstrip())
+
 
 class CppClassReturnValueBase(ReturnValue):
     "Class return handlers -- base class"
@@ -3201,33 +3239,7 @@ class CppClassRefParameter(CppClassParameterBase):
             wrapper.before_call.write_code(
                 "%s->obj = %s;" % (self.py_name, value))
             wrapper.build_params.add_parameter("O", [self.py_name])
-            wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
-
-            if self.cpp_class.has_copy_constructor:
-                ## if after the call we notice the callee kept a reference
-                ## to the pyobject, we then swap pywrapper->obj for a copy
-                ## of the original object.  Else the ->obj pointer is
-                ## simply erased (we never owned this object in the first
-                ## place).
-                wrapper.after_call.write_code(
-                    "if (Py_REFCNT(%s) == 1)\n"
-                    "    %s->obj = NULL;\n"
-                    "else{\n" % (self.py_name, self.py_name))
-                wrapper.after_call.indent()
-                self.cpp_class.write_create_instance(wrapper.after_call,
-                                                     "%s->obj" % self.py_name,
-                                                     self.value)
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, self.py_name,
-                                                                           "%s->obj" % self.py_name)
-                self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                 "%s->obj" % self.py_name,
-                                                                 self.value)
-                wrapper.after_call.unindent()
-                wrapper.after_call.write_code('}')
-            else:
-                ## it's not safe for the python wrapper to keep a
-                ## pointer to the object anymore; just set it to NULL.
-                wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
+            self._add_detach_cleanup(wrapper, self.py_name, self.value)
 
 
 class CppClassReturnValue(CppClassReturnValueBase):
@@ -3577,33 +3589,12 @@ class CppClassPtrParameter(CppClassParameterBase):
                             unconst_value = value
                         wrapper.before_call.write_code(
                             "%s->obj = %s;" % (self.py_name, unconst_value))
-                        wrapper.build_params.add_parameter("O", [self.py_name])
-                        wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
-
-                        if self.cpp_class.has_copy_constructor:
-                            ## if after the call we notice the callee kept a reference
-                            ## to the pyobject, we then swap pywrapper->obj for a copy
-                            ## of the original object.  Else the ->obj pointer is
-                            ## simply erased (we never owned this object in the first
-                            ## place).
-
-                            wrapper.after_call.write_code(
-                                "if (Py_REFCNT(%s) == 1)\n"
-                                "    %s->obj = NULL;\n"
-                                "else {\n" % (self.py_name, self.py_name))
-                            wrapper.after_call.indent()
-                            self.cpp_class.write_create_instance(wrapper.after_call,
-                                                                 "%s->obj" % self.py_name,
-                                                                 '*'+value)
-                            self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                             "%s->obj" % self.py_name,
-                                                                             '*'+value)
-                            wrapper.after_call.unindent()
-                            wrapper.after_call.write_code('}')
-                        else:
-                            ## it's not safe for the python wrapper to keep a
-                            ## pointer to the object anymore; just set it to NULL.
-                            wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
+                        temp_wrapper = wrapper.declarations.declare_variable(
+                            self.cpp_class.pystruct+'*', self.py_name + '_temp', 'NULL')
+                        wrapper.before_call.write_code(
+                            "%s = %s;\n"
+                            "Py_INCREF(%s);" % (temp_wrapper, self.py_name, temp_wrapper))
+                        self._add_detach_cleanup(wrapper, temp_wrapper, '*'+value)
                 else:
                     ## The PyObject gets a new reference to the same obj
                     self.cpp_class.memory_policy.write_incref(wrapper.before_call, value)
-- 
2.43.0


From 0506c217f57e05911d5ee54863ad26f7f214b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 015/123] fix: class and container results of overrides came
 after the output parameters

---
 pybindgen/container.py              | 2 +-
 pybindgen/cppclass.py               | 6 +++---
 pybindgen/typehandlers/smart_ptr.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index a7966db..220469a 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -866,7 +866,7 @@ class ContainerReturnValue(ContainerReturnValueBase):
             raise NotSupportedError("reference return type not supported")
         retval = wrapper.declarations.declare_variable(self.ctype, 'retval')
         assert retval == 'retval'
-        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value])
+        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value], prepend=True)
 
 
 ## end
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 7138f2a..6c0f203 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3292,7 +3292,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3373,7 +3373,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3794,7 +3794,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 121f499..19103c0 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -358,7 +358,7 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
-- 
2.43.0


From 4de60ce6536801db16900ba6fb649ae1e2d5c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 016/123] fix: overrides were passed containers that are pure
 outputs

---
 pybindgen/container.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 220469a..647153f 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -737,18 +737,14 @@ class ContainerRefParameter(ContainerParameterBase):
         '''Write some code before calling the Python method.'''
         assert isinstance(wrapper, ReverseWrapperBase)
 
-        self.py_name = wrapper.declarations.declare_variable(
-            self.container_type.pystruct+'*', 'py_'+self.container_type.name)
-        wrapper.before_call.write_code(
-            "%s = PyObject_New(%s, %s);" %
-            (self.py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
-
         if self.direction & Parameter.DIRECTION_IN:
+            self.py_name = wrapper.declarations.declare_variable(
+                self.container_type.pystruct+'*', 'py_'+self.container_type.name)
+            wrapper.before_call.write_code(
+                "%s = PyObject_New(%s, %s);" %
+                (self.py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
             wrapper.before_call.write_code("%s->obj = new %s(%s);" % (self.py_name, self.container_type.full_name, self.name))
-        else:
-            wrapper.before_call.write_code("%s->obj = new %s;" % (self.py_name, self.container_type.full_name))
-
-        wrapper.build_params.add_parameter("N", [self.py_name])
+            wrapper.build_params.add_parameter("N", [self.py_name])
 
         if self.direction & Parameter.DIRECTION_OUT:
             wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.name], self.name)
-- 
2.43.0


From 8dcc8be795bbc5ed0b8c05152f88518ad51d247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 017/123] fix: small integer and size_t parameters called the
 wrong C++ overload

---
 pybindgen/typehandlers/inttype.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index cf2ef2d..104059a 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -308,7 +308,7 @@ class UInt16Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0xffff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class UInt16RefParam(Parameter):
 
@@ -348,7 +348,7 @@ class Int16Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0x7fff || %s < -0x8000' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 
 class Int16RefParam(Parameter):
@@ -388,7 +388,7 @@ class UInt8Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0xff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class UInt8RefParam(Parameter):
 
@@ -446,7 +446,7 @@ class Int8Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0x7f || %s < -0x80' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class Int8RefParam(Parameter):
 
@@ -644,7 +644,7 @@ class SizeTParam(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("unsigned PY_LONG_LONG", self.name, self.default_value)
         wrapper.parse_params.add_parameter('K', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 
 
-- 
2.43.0


From f535202eba17e56040f1e425aba45020943672e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 018/123] fix: classes with a free function freed objects they
 only borrowed

---
 pybindgen/cppclass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6c0f203..7a034c4 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -229,7 +229,9 @@ class FreeFunctionPolicy(MemoryPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.free_function))
         return delete_code
-- 
2.43.0


From 5077b6963491284e1c2432e0ae95f2b3370b1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 019/123] fix: objects whose ownership came to an existing
 borrowed wrapper leaked

---
 pybindgen/cppclass.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 7a034c4..0637326 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2892,6 +2892,10 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
         code_block.unindent()
         code_block.write_code("}") # closes: if (typeid(*(%s)) == typeid(%s)) { ... } else { ...
 
+    if caller_owns_return and not isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+        # the wrapper we found may have been just borrowing the object until now
+        code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (py_name,))
+
 
 
 class CppClassParameterBase(Parameter):
@@ -3627,7 +3631,6 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                                            "%s->obj" % py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
@@ -3673,7 +3676,11 @@ class CppClassPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
-            wrapper.build_params.add_parameter("N", [py_name])
+
+        if self.transfer_ownership and not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
+            # the wrapper we found may have been just borrowing the object until now
+            wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
+        wrapper.build_params.add_parameter("N", [py_name])
 
 
 
-- 
2.43.0


From 39615aaf9b2de93fe4698db88751765845290f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 020/123] fix: the garbage collector freed Python subclass
 objects owned by C++

---
 pybindgen/cppclass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 0637326..7bf62a5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2480,7 +2480,8 @@ static void
             else:
                 peekref_code = " && self->obj->%s() == 1" % self.memory_policy.peekref_method
             visit_self = '''
-    if (self->obj && typeid(*self->obj).name() == typeid(%s).name() %s)
+    if (self->obj && !(self->flags & PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)
+        && typeid(*self->obj).name() == typeid(%s).name() %s)
         Py_VISIT((PyObject *) self);
 ''' % (self.helper_class.name, peekref_code)
 
@@ -3518,6 +3519,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                                             '%s' % self.py_name,
                                                                             '%s->obj' % self.py_name)
                 wrapper.after_call.write_code('%s->obj = NULL;' % self.py_name)
+                wrapper.after_call.write_code('%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;' % self.py_name)
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
-- 
2.43.0


From 4f298f720fbe996fe2f4b92b945b8221fae04044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 021/123] fix: failing overrides passed objects they own to the
 parent method

---
 pybindgen/cppmethod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 06263fa..6bece5c 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1035,6 +1035,10 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         params.extend(build_params)
         self.before_call.write_code('py_retval = PyObject_CallMethod(%s);'
                                     % (', '.join(params),))
+        if any(getattr(param, 'transfer_ownership', False) for param in self.parameters):
+            ## python owns the parameters now: if there is an error,
+            ## the parent method cannot be given them a second time.
+            self.set_error_return(self.return_value.get_c_error_return())
         self.before_call.write_error_check('py_retval == NULL', failure_cleanup='PyErr_Print();')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
 
-- 
2.43.0


From e98a2808173ebc6c4d39075889dda5782ab027da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 022/123] fix: dropping a wrapper unregistered another wrapper
 of the same address

---
 pybindgen/cppclass.py         | 21 +++++++++++++++------
 pybindgen/wrapper_registry.py |  2 +-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 7bf62a5..39311cf 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2459,14 +2459,19 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         tp_clear_function_name = "%s__tp_clear" % (self.pystruct,)
         self.slots.setdefault("tp_clear", tp_clear_function_name )
         delete_code = self._get_delete_code()
+        unregister_block = CodeBlock("return;", DeclarationsScope())
+        self._write_unregister_self(unregister_block)
+        unregister_sink = MemoryCodeSink()
+        unregister_block.declarations.get_code_sink().flush_to(unregister_sink)
+        unregister_block.sink.flush_to(unregister_sink)
         code_sink.writeln(r'''
 static void
 %s(%s *self)
 {
     Py_CLEAR(self->inst_dict);
-    %s
+%s    %s
 }
-''' % (tp_clear_function_name, self.pystruct, delete_code))
+''' % (tp_clear_function_name, self.pystruct, unregister_sink.flush(), delete_code))
 
         ## --- tp_traverse ---
         tp_traverse_function_name = "%s__tp_traverse" % (self.pystruct,)
@@ -2549,6 +2554,13 @@ static int
 ''' % (tp_compare_function_name, self.pystruct, self.pystruct))
 
 
+    def _write_unregister_self(self, code_block):
+        """Write the code that removes 'self' from the wrapper registry"""
+        if self.memory_policy is not None:
+            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.memory_policy.get_pointer_to_void_name('self->obj'))
+        else:
+            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', 'self->obj')
+
     def _generate_destructor(self, code_sink, have_constructor):
         """Generate a tp_dealloc function and register it in the type"""
 
@@ -2565,10 +2577,7 @@ static void
 
         code_block = CodeBlock("PyErr_Print(); return;", DeclarationsScope())
 
-        if self.memory_policy is not None:
-            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.memory_policy.get_pointer_to_void_name('self->obj'))
-        else:
-            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', 'self->obj')
+        self._write_unregister_self(code_block)
 
         if self.allow_subclassing:
             code_block.write_code("%s(self);" % self.slots["tp_clear"])
diff --git a/pybindgen/wrapper_registry.py b/pybindgen/wrapper_registry.py
index bdc14d6..f7e1ca9 100644
--- a/pybindgen/wrapper_registry.py
+++ b/pybindgen/wrapper_registry.py
@@ -123,7 +123,7 @@ class StdMapWrapperRegistry(WrapperRegistry):
         #                      % (object_rvalue))
         iterator = code_block.declare_variable("std::map<void*, PyObject*>::iterator", "wrapper_lookup_iter")
         code_block.write_code("%(ITER)s = %(MAP)s.find((void *) %(OBJECT_VALUE)s);\n"
-                              "if (%(ITER)s != %(MAP)s.end()) {\n"
+                              "if (%(ITER)s != %(MAP)s.end() && %(ITER)s->second == (PyObject *) %(WRAPPER)s) {\n"
                               "    %(MAP)s.erase(%(ITER)s);\n"
                               "}\n"
                               % dict(ITER=iterator, MAP=self.map_name, WRAPPER=wrapper_lvalue, OBJECT_VALUE=object_rvalue))
-- 
2.43.0


From cc51775050b288ce503cfc85f1b32a72eea22467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 023/123] fix: None passed where ownership is transferred was
 written to as an object

---
 pybindgen/cppclass.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 39311cf..3e6e14d 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3515,9 +3515,12 @@ class CppClassPtrParameter(CppClassParameterBase):
         wrapper.call_params.append(value)
 
         if self.transfer_ownership:
+            have_object = self.py_name
+            if self.null_ok and not self.take_value_from_python_self:
+                have_object += " && (PyObject *) %s != Py_None" % self.py_name
             if not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
                 # if we transfer ownership, in the end we no longer own the object, so clear our pointer
-                wrapper.after_call.write_code('if (%s) {' % self.py_name)
+                wrapper.after_call.write_code('if (%s) {' % have_object)
                 wrapper.after_call.indent()
                 if self.cpp_class.memory_policy is not None:
                     self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
@@ -3532,7 +3535,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
-                wrapper.before_call.write_code("if (%s) {" % self.py_name)
+                wrapper.before_call.write_code("if (%s) {" % have_object)
                 wrapper.before_call.indent()
                 self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
                 wrapper.before_call.unindent()
-- 
2.43.0


From bf5b44514a761977a3c3de99d7bb9d33d4124f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 024/123] fix: the garbage collector never saw wrappers created
 from C++

---
 pybindgen/cppclass.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 3e6e14d..72807d4 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2577,6 +2577,9 @@ static void
 
         code_block = CodeBlock("PyErr_Print(); return;", DeclarationsScope())
 
+        if self.allow_subclassing:
+            code_block.write_code("PyObject_GC_UnTrack((PyObject *) self);")
+
         self._write_unregister_self(code_block)
 
         if self.allow_subclassing:
@@ -2669,11 +2672,18 @@ if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
             wrapper_type = '&'+self.pytypestruct
         code_block.write_code("%s = %s(%s, %s);" %
                               (lvalue, new_func, self.pystruct, wrapper_type))
+        init_code = ''
+        if self.memory_policy is not None:
+            init_code = self.memory_policy.get_pystruct_init_code(self, lvalue)
         if self.allow_subclassing:
+            ## the garbage collector may look at it from now on
+            code_block.write_code(init_code or "%s->obj = NULL;" % (lvalue,))
             code_block.write_code(
-                "%s->inst_dict = NULL;" % (lvalue,))
-        if self.memory_policy is not None:
-            code_block.write_code(self.memory_policy.get_pystruct_init_code(self, lvalue))
+                "%(LVALUE)s->inst_dict = NULL;\n"
+                "%(LVALUE)s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;\n"
+                "PyObject_GC_Track((PyObject *) %(LVALUE)s);" % dict(LVALUE=lvalue))
+        elif init_code:
+            code_block.write_code(init_code)
 
 
 # from pybindgen.cppclass_typehandlers import CppClassParameter, CppClassRefParameter, \
-- 
2.43.0


From 0649fe49f4c8c80ded6e13685ffb251826ae02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 025/123] fix: the garbage collector never saw container
 iterators

---
 pybindgen/container.py          | 2 ++
 pybindgen/cppclass_container.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 647153f..802cc5f 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -453,6 +453,7 @@ static void
 static void
 %s(%s *self)
 {
+    PyObject_GC_UnTrack((PyObject *) self);
     Py_CLEAR(self->container);
     %s
     Py_TYPE(self)->tp_free((PyObject*)self);
@@ -483,6 +484,7 @@ static PyObject*
     Py_INCREF(self);
     iter->container = self;
     iter->iterator = new %(CTYPE)s::iterator(self->obj->begin());
+    PyObject_GC_Track((PyObject *) iter);
     return (PyObject*) iter;
 }
 ''' % subst_vars)
diff --git a/pybindgen/cppclass_container.py b/pybindgen/cppclass_container.py
index 7c22320..3274942 100644
--- a/pybindgen/cppclass_container.py
+++ b/pybindgen/cppclass_container.py
@@ -210,6 +210,7 @@ static int
 static void
 %s(%s *self)
 {
+    PyObject_GC_UnTrack((PyObject *) self);
     Py_CLEAR(self->container);
     %s
     Py_TYPE(self)->tp_free((PyObject*)self);
@@ -242,6 +243,7 @@ static PyObject*
     Py_INCREF(self);
     iter->container = self;
     iter->iterator = new %(CTYPE)s::%(ITERATOR_TYPE)s(self->obj->%(BEGIN_METHOD)s());
+    PyObject_GC_Track((PyObject *) iter);
     return (PyObject*) iter;
 }
 ''' % subst_vars)
-- 
2.43.0


From 69b59840cde8a48a7a531b55fc0b13b58aef218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 026/123] fix: classes held by shared_ptr did not compile with
 the std::map wrapper registry

---
 pybindgen/cppclass.py               | 123 +++++++++++-----------------
 pybindgen/typehandlers/smart_ptr.py |  18 ++--
 2 files changed, 52 insertions(+), 89 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 72807d4..40d1b6e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2309,7 +2309,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
 
-        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, "%s->obj" % py_copy)
+        self.write_register_wrapper(code_block, py_copy)
 
         code_block.write_code("return (PyObject*) %s;" % py_copy)
 
@@ -2460,7 +2460,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         self.slots.setdefault("tp_clear", tp_clear_function_name )
         delete_code = self._get_delete_code()
         unregister_block = CodeBlock("return;", DeclarationsScope())
-        self._write_unregister_self(unregister_block)
+        self.write_unregister_wrapper(unregister_block, "self")
         unregister_sink = MemoryCodeSink()
         unregister_block.declarations.get_code_sink().flush_to(unregister_sink)
         unregister_block.sink.flush_to(unregister_sink)
@@ -2554,12 +2554,29 @@ static int
 ''' % (tp_compare_function_name, self.pystruct, self.pystruct))
 
 
-    def _write_unregister_self(self, code_block):
-        """Write the code that removes 'self' from the wrapper registry"""
-        if self.memory_policy is not None:
-            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.memory_policy.get_pointer_to_void_name('self->obj'))
-        else:
-            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', 'self->obj')
+    def _get_registry_key(self, obj_expr):
+        """Expression for the address that identifies an object in the wrapper registry"""
+        if self.memory_policy is None:
+            return obj_expr
+        return self.memory_policy.get_pointer_to_void_name(obj_expr)
+
+    def write_register_wrapper(self, code_block, py_name):
+        """Write the code that adds a wrapper to the wrapper registry"""
+        self.wrapper_registry.write_register_new_wrapper(
+            code_block, py_name, self._get_registry_key("%s->obj" % py_name))
+
+    def write_unregister_wrapper(self, code_block, py_name):
+        """Write the code that removes a wrapper from the wrapper registry"""
+        self.wrapper_registry.write_unregister_wrapper(
+            code_block, py_name, self._get_registry_key("%s->obj" % py_name))
+
+    def write_lookup_wrapper(self, code_block, py_name, value):
+        """
+        Write the code that looks up the existing wrapper of an object,
+        given by pointer (or smart pointer).
+        """
+        self.wrapper_registry.write_lookup_wrapper(
+            code_block, self.pystruct, py_name, self._get_registry_key(value))
 
     def _generate_destructor(self, code_sink, have_constructor):
         """Generate a tp_dealloc function and register it in the type"""
@@ -2580,7 +2597,7 @@ static void
         if self.allow_subclassing:
             code_block.write_code("PyObject_GC_UnTrack((PyObject *) self);")
 
-        self._write_unregister_self(code_block)
+        self.write_unregister_wrapper(code_block, "self")
 
         if self.allow_subclassing:
             code_block.write_code("%s(self);" % self.slots["tp_clear"])
@@ -2800,30 +2817,15 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
 
     if cpp_class.helper_class is None:
         try:
-            if cpp_class.memory_policy is not None:
-                cpp_class.wrapper_registry.write_lookup_wrapper(
-                    code_block, cpp_class.pystruct, py_name, cpp_class.memory_policy.get_pointer_to_void_name(value_ptr))
-            else:
-                cpp_class.wrapper_registry.write_lookup_wrapper(
-                    code_block, cpp_class.pystruct, py_name, value_ptr)
+            cpp_class.write_lookup_wrapper(code_block, py_name, value_ptr)
         except NotSupportedError:
             write_create_new_wrapper()
-            if cpp_class.memory_policy is not None:
-                cpp_class.wrapper_registry.write_register_new_wrapper(
-                    code_block, py_name, cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
-            else:
-                cpp_class.wrapper_registry.write_register_new_wrapper(
-                    code_block, py_name, "%s->obj" % py_name)
+            cpp_class.write_register_wrapper(code_block, py_name)
         else:
             code_block.write_code("if (%s == NULL) {" % py_name)
             code_block.indent()
             write_create_new_wrapper()
-            if cpp_class.memory_policy is not None:
-                cpp_class.wrapper_registry.write_register_new_wrapper(
-                    code_block, py_name, cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
-            else:
-                cpp_class.wrapper_registry.write_register_new_wrapper(
-                    code_block, py_name, "%s->obj" % py_name)
+            cpp_class.write_register_wrapper(code_block, py_name)
             code_block.unindent()
 
             # If we are already referencing the existing python wrapper,
@@ -2875,16 +2877,10 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
 
         # first check in the wrapper registry...
         try:
-            if cpp_class.memory_policy is not None:
-                cpp_class.wrapper_registry.write_lookup_wrapper(
-                    code_block, cpp_class.pystruct, py_name, cpp_class.memory_policy.get_pointer_to_void_name(value_ptr))
-            else:
-                cpp_class.wrapper_registry.write_lookup_wrapper(
-                    code_block, cpp_class.pystruct, py_name, value_ptr)
+            cpp_class.write_lookup_wrapper(code_block, py_name, value_ptr)
         except NotSupportedError:
             write_create_new_wrapper()
-            cpp_class.wrapper_registry.write_register_new_wrapper(
-                code_block, py_name, "%s->obj" % py_name)
+            cpp_class.write_register_wrapper(code_block, py_name)
         else:
             code_block.write_code("if (%s == NULL) {" % py_name)
             code_block.indent()
@@ -2892,8 +2888,7 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
             # wrapper registry told us there is no wrapper for
             # this instance => need to create new one
             write_create_new_wrapper()
-            cpp_class.wrapper_registry.write_register_new_wrapper(
-                code_block, py_name, "%s->obj" % py_name)
+            cpp_class.write_register_wrapper(code_block, py_name)
             code_block.unindent()
 
             # handle ownership rules...
@@ -2954,7 +2949,7 @@ class CppClassParameterBase(Parameter):
         block = CodeBlock(wrapper.error_return, wrapper.declarations)
         block.write_code("if (%s) {" % py_name)
         block.indent()
-        self.cpp_class.wrapper_registry.write_unregister_wrapper(block, py_name, "%s->obj" % py_name)
+        self.cpp_class.write_unregister_wrapper(block, py_name)
         if self.cpp_class.has_copy_constructor:
             ## if after the call we notice the callee kept a reference
             ## to the pyobject, we then swap pywrapper->obj for a copy
@@ -2967,7 +2962,7 @@ class CppClassParameterBase(Parameter):
                 "else {" % (py_name, py_name))
             block.indent()
             self.cpp_class.write_create_instance(block, "%s->obj" % py_name, value)
-            self.cpp_class.wrapper_registry.write_register_new_wrapper(block, py_name, "%s->obj" % py_name)
+            self.cpp_class.write_register_wrapper(block, py_name)
             self.cpp_class.write_post_instance_creation_code(block, "%s->obj" % py_name, value)
             block.unindent()
             block.write_code('}')
@@ -3089,8 +3084,7 @@ class CppClassParameter(CppClassParameterBase):
         self.cpp_class.write_create_instance(wrapper.before_call,
                                              "%s->obj" % self.py_name,
                                              self.value)
-        self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                   "%s->obj" % self.py_name)
+        self.cpp_class.write_register_wrapper(wrapper.before_call, self.py_name)
         self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                          "%s->obj" % self.py_name,
                                                          self.value)
@@ -3203,8 +3197,7 @@ class CppClassRefParameter(CppClassParameterBase):
             self.cpp_class.write_create_instance(wrapper.before_call,
                                                  "%s->obj" % self.py_name,
                                                  '')
-            self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                       "%s->obj" % self.py_name)
+            self.cpp_class.write_register_wrapper(wrapper.before_call, self.py_name)
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              '')
@@ -3246,8 +3239,7 @@ class CppClassRefParameter(CppClassParameterBase):
             self.cpp_class.write_create_instance(wrapper.before_call,
                                                  "%s->obj" % self.py_name,
                                                  self.value)
-            self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                       "%s->obj" % self.py_name)
+            self.cpp_class.write_register_wrapper(wrapper.before_call, self.py_name)
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              self.value)
@@ -3302,8 +3294,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
         self.cpp_class.write_create_instance(wrapper.after_call,
                                              "%s->obj" % py_name,
                                              self.value)
-        self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, py_name,
-                                                                   "%s->obj" % py_name)
+        self.cpp_class.write_register_wrapper(wrapper.after_call, py_name)
         self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                          "%s->obj" % py_name,
                                                          self.value)
@@ -3380,8 +3371,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
             self.cpp_class.write_create_instance(wrapper.after_call,
                                                  "%s->obj" % py_name,
                                                  self.value)
-            self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, py_name,
-                                                                       "%s->obj" % py_name)
+            self.cpp_class.write_register_wrapper(wrapper.after_call, py_name)
             self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                              "%s->obj" % py_name,
                                                              self.value)
@@ -3532,14 +3522,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                 # if we transfer ownership, in the end we no longer own the object, so clear our pointer
                 wrapper.after_call.write_code('if (%s) {' % have_object)
                 wrapper.after_call.indent()
-                if self.cpp_class.memory_policy is not None:
-                    self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
-                                                                            '%s' % self.py_name,
-                                                                            self.cpp_class.memory_policy.get_pointer_to_void_name('%s->obj' % self.py_name))
-                else:
-                    self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
-                                                                            '%s' % self.py_name,
-                                                                            '%s->obj' % self.py_name)
+                self.cpp_class.write_unregister_wrapper(wrapper.after_call, self.py_name)
                 wrapper.after_call.write_code('%s->obj = NULL;' % self.py_name)
                 wrapper.after_call.write_code('%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;' % self.py_name)
                 wrapper.after_call.unindent()
@@ -3637,22 +3620,15 @@ class CppClassPtrParameter(CppClassParameterBase):
 
         if self.cpp_class.helper_class is None:
             try:
-                if self.cpp_class.memory_policy is not None:
-                    self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                        wrapper.before_call, self.cpp_class.pystruct, py_name, self.cpp_class.memory_policy.get_pointer_to_void_name(value))
-                else:
-                    self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                        wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                self.cpp_class.write_lookup_wrapper(wrapper.before_call, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
         else:
@@ -3679,22 +3655,15 @@ class CppClassPtrParameter(CppClassParameterBase):
             wrapper.before_call.indent()
 
             try:
-                if self.cpp_class.memory_policy is not None:
-                    self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                        wrapper.before_call, self.cpp_class.pystruct, py_name, self.cpp_class.memory_policy.get_pointer_to_void_name(value))
-                else:
-                    self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                        wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                self.cpp_class.write_lookup_wrapper(wrapper.before_call, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, "%s->obj" % py_name)
+                self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 19103c0..c383f2d 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -249,18 +249,15 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
         if self.cpp_class.helper_class is None:
             try:
-                self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                    wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                self.cpp_class.write_lookup_wrapper(wrapper.before_call, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
             wrapper.build_params.add_parameter("N", [py_name])
@@ -288,18 +285,15 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
             wrapper.before_call.indent()
 
             try:
-                self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                    wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                self.cpp_class.write_lookup_wrapper(wrapper.before_call, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, "%s->obj" % py_name)
+                self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
-- 
2.43.0


From af701b13286d53c8fd41b82fa97b7ee69880a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 027/123] fix: copying objects ignored how the class says its
 objects are created

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 40d1b6e..b9174dd 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2304,7 +2304,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
         py_copy = declarations.declare_variable("%s*" % self.pystruct, "py_copy")
         self.write_allocate_pystruct(code_block, py_copy)
-        code_block.write_code("%s->obj = new %s(*self->obj);" % (py_copy, construct_name))
+        self.write_create_instance(code_block, "%s->obj" % py_copy, "*self->obj", construct_name)
         if self.allow_subclassing:
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
-- 
2.43.0


From 831f22b3998f67894609fec857bad597f679e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 028/123] fix: wrappers of shared_ptr objects destroyed their
 pointer twice

---
 pybindgen/typehandlers/smart_ptr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index c383f2d..b0aabeb 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -24,7 +24,8 @@ class BoostSharedPtr(SmartPointerPolicy):
         return self.pointer_template % (class_name,)
         
     def get_delete_code(self, cpp_class):
-        return "self->obj.~shared_ptr< %s >();" % (cpp_class.full_name,)
+        # (may run twice: from tp_clear and from tp_dealloc)
+        return "self->obj.reset();"
 
     def get_pointer_type(self, class_full_name):
         return self.get_pointer_name(class_full_name) + ' '
-- 
2.43.0


From ad08f28d4b65058cb04d71d5a5b944cb444e4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 029/123] fix: the wrapper registry returned wrappers of
 another class

---
 pybindgen/cppclass.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index b9174dd..8f7952b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2577,6 +2577,10 @@ static int
         """
         self.wrapper_registry.write_lookup_wrapper(
             code_block, self.pystruct, py_name, self._get_registry_key(value))
+        # an object and its first member have the same address
+        code_block.write_code("if (%(WRAPPER)s != NULL && !PyObject_TypeCheck((PyObject *) %(WRAPPER)s, &%(TYPE)s)) {\n"
+                              "    Py_CLEAR(%(WRAPPER)s);\n"
+                              "}" % dict(WRAPPER=py_name, TYPE=self.pytypestruct))
 
     def _generate_destructor(self, code_sink, have_constructor):
         """Generate a tp_dealloc function and register it in the type"""
-- 
2.43.0


From c665a4a4633d26b05aa95c03b1d197ea3ef96d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 030/123] fix: objects created from Python were not in the
 wrapper registry

---
 pybindgen/cppmethod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 6bece5c..20fb525 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -655,6 +655,7 @@ class CppConstructor(ForwardWrapperBase):
             class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
             self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
+            class_.write_register_wrapper(self.before_call, "self")
         else:
             ## We should only create a helper class instance when
             ## being called from a user python subclass.
@@ -669,6 +670,7 @@ class CppConstructor(ForwardWrapperBase):
                                         % class_.helper_class.name)
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params),
                                                      class_.helper_class.name)
+            class_.write_register_wrapper(self.before_call, "self")
 
             self.before_call.unindent()
             self.before_call.write_code("} else {")
@@ -687,6 +689,7 @@ class CppConstructor(ForwardWrapperBase):
                 class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
                 self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
                 class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
+                class_.write_register_wrapper(self.before_call, "self")
 
             self.before_call.unindent()
             self.before_call.write_code("}")
@@ -819,6 +822,7 @@ class CppFunctionAsConstructor(CppConstructor):
         self.before_call.write_code("self->obj = %s(%s);" %
                                     (self.c_function_name, ", ".join(self.call_params)))
         self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
+        class_.write_register_wrapper(self.before_call, "self")
 
 
 class CppOverloadedConstructor(overloading.OverloadedWrapper):
-- 
2.43.0


From 67916cda50decdab3283a509a24705b2295e048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 031/123] fix: the garbage collector ignored the peekref
 function of reference counted classes

---
 pybindgen/cppclass.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 8f7952b..e74f8cc 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2480,10 +2480,13 @@ static void
         if self.helper_class is None:
             visit_self = ''
         else:
-            if not isinstance(self.memory_policy, ReferenceCountingMethodsPolicy) or self.memory_policy.peekref_method is None:
-                peekref_code = ''
-            else:
-                peekref_code = " && self->obj->%s() == 1" % self.memory_policy.peekref_method
+            peekref_code = ''
+            if isinstance(self.memory_policy, ReferenceCountingMethodsPolicy):
+                if self.memory_policy.peekref_method is not None:
+                    peekref_code = " && self->obj->%s() == 1" % self.memory_policy.peekref_method
+            elif isinstance(self.memory_policy, ReferenceCountingFunctionsPolicy):
+                if self.memory_policy.peekref_function is not None:
+                    peekref_code = " && %s(self->obj) == 1" % self.memory_policy.peekref_function
             visit_self = '''
     if (self->obj && !(self->flags & PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)
         && typeid(*self->obj).name() == typeid(%s).name() %s)
-- 
2.43.0


From 3f65109328c37a6ada02129bf97b18e17c9001c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 032/123] fix: copying objects skipped the post instance
 creation function

---
 pybindgen/cppclass.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index e74f8cc..9827c62 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2310,6 +2310,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
 
         self.write_register_wrapper(code_block, py_copy)
+        self.write_post_instance_creation_code(code_block, "%s->obj" % py_copy, "*self->obj", construct_name)
 
         code_block.write_code("return (PyObject*) %s;" % py_copy)
 
-- 
2.43.0


From 2163285a17d22d042840be77e5c154493d233fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 033/123] fix: null pointers passed to a Python override
 crashed

---
 pybindgen/cppclass.py               |  9 +++++++++
 pybindgen/typehandlers/smart_ptr.py | 14 +++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9827c62..0da39f0 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3626,6 +3626,13 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
         ## closes def write_create_new_wrapper():
 
+        wrapper.before_call.write_code("if (!(%s)) {" % value)
+        wrapper.before_call.indent()
+        wrapper.before_call.write_code("%s = (%s*) Py_None;\nPy_INCREF(Py_None);" % (py_name, self.cpp_class.pystruct))
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("} else {")
+        wrapper.before_call.indent()
+
         if self.cpp_class.helper_class is None:
             try:
                 self.cpp_class.write_lookup_wrapper(wrapper.before_call, py_name, value)
@@ -3681,6 +3688,8 @@ class CppClassPtrParameter(CppClassParameterBase):
         if self.transfer_ownership and not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
             # the wrapper we found may have been just borrowing the object until now
             wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("}")
         wrapper.build_params.add_parameter("N", [py_name])
 
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index b0aabeb..e8307c9 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -248,6 +248,13 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
             ## Assign the C++ value to the Python wrapper
             wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
 
+        wrapper.before_call.write_code("if (!(%s)) {" % value)
+        wrapper.before_call.indent()
+        wrapper.before_call.write_code("%s = (%s*) Py_None;\nPy_INCREF(Py_None);" % (py_name, self.cpp_class.pystruct))
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("} else {")
+        wrapper.before_call.indent()
+
         if self.cpp_class.helper_class is None:
             try:
                 self.cpp_class.write_lookup_wrapper(wrapper.before_call, py_name, value)
@@ -261,7 +268,6 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                 self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
@@ -300,8 +306,10 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
-            wrapper.build_params.add_parameter("N", [py_name])
-            
+
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("}")
+        wrapper.build_params.add_parameter("N", [py_name])
 
 
 
-- 
2.43.0


From 1e421dc71fa2b5866622ffade522b127ca4273af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 034/123] fix: reference counted objects given to an override
 that knew them already leaked

---
 pybindgen/cppclass.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 0da39f0..18079eb 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3633,6 +3633,10 @@ class CppClassPtrParameter(CppClassParameterBase):
         wrapper.before_call.write_code("} else {")
         wrapper.before_call.indent()
 
+        # if C++ gives us its reference but we find a wrapper, which holds one already
+        release_extra_ref = (self.transfer_ownership
+                             and isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy))
+
         if self.cpp_class.helper_class is None:
             try:
                 self.cpp_class.write_lookup_wrapper(wrapper.before_call, py_name, value)
@@ -3645,6 +3649,11 @@ class CppClassPtrParameter(CppClassParameterBase):
                 write_create_new_wrapper()
                 self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
                 wrapper.before_call.unindent()
+                if release_extra_ref:
+                    wrapper.before_call.write_code('} else {')
+                    wrapper.before_call.indent()
+                    self.cpp_class.memory_policy.write_decref(wrapper.before_call, value)
+                    wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
@@ -3665,6 +3674,8 @@ class CppClassPtrParameter(CppClassParameterBase):
                        self.cpp_class.helper_class.name, value))
                 wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
             wrapper.before_call.write_code("Py_INCREF(%s);" % py_name)
+            if release_extra_ref:
+                self.cpp_class.memory_policy.write_decref(wrapper.before_call, value)
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("} else {")
             wrapper.before_call.indent()
@@ -3680,6 +3691,11 @@ class CppClassPtrParameter(CppClassParameterBase):
                 write_create_new_wrapper()
                 self.cpp_class.write_register_wrapper(wrapper.before_call, py_name)
                 wrapper.before_call.unindent()
+                if release_extra_ref:
+                    wrapper.before_call.write_code('} else {')
+                    wrapper.before_call.indent()
+                    self.cpp_class.memory_policy.write_decref(wrapper.before_call, value)
+                    wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
             wrapper.before_call.unindent()
-- 
2.43.0


From 90fa692bc0a65846da4849d90df50cbc73bdcbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 035/123] fix: deleting a C++ attribute crashed

---
 pybindgen/cppattribute.py       | 4 ++++
 pybindgen/cppcustomattribute.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index f2c0006..21cac92 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -144,6 +144,8 @@ class CppInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check(
+            'value == NULL', 'PyErr_SetString(PyExc_AttributeError, "attribute \'%s\' cannot be deleted");' % self.attribute_name)
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
@@ -218,6 +220,8 @@ class CppStaticAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check(
+            'value == NULL', 'PyErr_SetString(PyExc_AttributeError, "attribute \'%s\' cannot be deleted");' % self.attribute_name)
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index a504551..253995c 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -75,6 +75,8 @@ class CppCustomInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check(
+            'value == NULL', 'PyErr_SetString(PyExc_AttributeError, "attribute \'%s\' cannot be deleted");' % self.attribute_name)
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
-- 
2.43.0


From 2b3f1d7364210f1b554d074fa9d41b57b43e65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 036/123] fix: a failed truth test stored a value in bool
 attributes and parameters

---
 pybindgen/typehandlers/booltype.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index e908609..36c96d2 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -40,9 +40,10 @@ class BoolReturn(ReturnValue):
     def convert_python_to_c(self, wrapper):
         py_name = wrapper.declarations.declare_variable('PyObject *', 'py_boolretval')
         wrapper.parse_params.add_parameter("O", ["&"+py_name], prepend=True)
-        wrapper.after_call.write_code(
-            "%s = PyObject_IsTrue(%s);" % (self.value, py_name))
-        wrapper.after_call.write_error_check('PyErr_Occurred()')
+        truth = wrapper.declarations.declare_variable('int', 'truth')
+        wrapper.after_call.write_code("%s = PyObject_IsTrue(%s);" % (truth, py_name))
+        wrapper.after_call.write_error_check('%s < 0' % truth)
+        wrapper.after_call.write_code("%s = (%s != 0);" % (self.value, truth))
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter(
@@ -63,9 +64,10 @@ class BoolPtrParam(Parameter):
             py_name = wrapper.declarations.declare_variable(
                 'PyObject *', 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.after_call.write_code(
-                "*%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
-            wrapper.after_call.write_error_check('PyErr_Occurred()')
+            truth = wrapper.declarations.declare_variable('int', 'truth')
+            wrapper.after_call.write_code("%s = PyObject_IsTrue(%s);" % (truth, py_name,))
+            wrapper.after_call.write_error_check('%s < 0' % truth)
+            wrapper.after_call.write_code("*%s = (%s != 0);" % (self.value, truth))
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool*'
@@ -97,9 +99,10 @@ class BoolRefParam(Parameter):
             py_name = wrapper.declarations.declare_variable(
                 'PyObject *', 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.name)
-            wrapper.after_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
-            wrapper.after_call.write_error_check('PyErr_Occurred()')
+            truth = wrapper.declarations.declare_variable('int', 'truth')
+            wrapper.after_call.write_code("%s = PyObject_IsTrue(%s);" % (truth, py_name,))
+            wrapper.after_call.write_error_check('%s < 0' % truth)
+            wrapper.after_call.write_code("%s = (%s != 0);" % (self.value, truth))
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool&'
-- 
2.43.0


From d8daa495bfaa58e2e5887b570912ec23137599d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 037/123] fix: a bad list left container attributes partly
 modified

---
 pybindgen/container.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 802cc5f..a1b4659 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -541,15 +541,16 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
     if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
-        container->clear();
+        %(CTYPE)s result;
         Py_ssize_t size = PyList_Size(arg);
         for (Py_ssize_t i = 0; i < size; i++) {
             %(ITEM_CTYPE)s item;
             if (!%(ITEM_CONVERTER)s(PyList_GET_ITEM(arg, i), &item)) {
                 return 0;
             }
-            container->%(ADD_VALUE)s(item);
+            result.%(ADD_VALUE)s(item);
         }
+        *container = result;
     } else {
         PyErr_SetString(PyExc_TypeError, "parameter must be None, a %(PYTHON_NAME)s instance, or a list of %(ITEM_CTYPE)s");
         return 0;
@@ -573,7 +574,7 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
     if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
-        container->clear();
+        %(CTYPE)s result;
         Py_ssize_t size = PyList_Size(arg);
         for (Py_ssize_t i = 0; i < size; i++) {
             PyObject *tup = PyList_GET_ITEM(arg, i);
@@ -588,8 +589,9 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
             if (!%(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second)) {
                 return 0;
             }
-            container->%(ADD_VALUE)s(item);
+            result.%(ADD_VALUE)s(item);
         }
+        *container = result;
     } else {
         PyErr_SetString(PyExc_TypeError, "parameter must be None, a %(PYTHON_NAME)s instance, or a list of %(ITEM_CTYPE)s");
         return 0;
-- 
2.43.0


From 0105f9d1400a78acd06dfb8492d4b6c5991e97ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 038/123] fix: a list changed while it was converted to a
 container was read out of bounds

---
 pybindgen/container.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index a1b4659..9743c8c 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -542,10 +542,14 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         %(CTYPE)s result;
-        Py_ssize_t size = PyList_Size(arg);
-        for (Py_ssize_t i = 0; i < size; i++) {
+        // converting an item may run Python code, which may change the list
+        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(arg); i++) {
             %(ITEM_CTYPE)s item;
-            if (!%(ITEM_CONVERTER)s(PyList_GET_ITEM(arg, i), &item)) {
+            PyObject *py_item = PyList_GET_ITEM(arg, i);
+            Py_INCREF(py_item);
+            int ok = %(ITEM_CONVERTER)s(py_item, &item);
+            Py_DECREF(py_item);
+            if (!ok) {
                 return 0;
             }
             result.%(ADD_VALUE)s(item);
@@ -575,18 +579,19 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         %(CTYPE)s result;
-        Py_ssize_t size = PyList_Size(arg);
-        for (Py_ssize_t i = 0; i < size; i++) {
+        // converting an item may run Python code, which may change the list
+        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(arg); i++) {
             PyObject *tup = PyList_GET_ITEM(arg, i);
             if (!PyTuple_Check(tup) || PyTuple_Size(tup) != 2) {
                 PyErr_SetString(PyExc_TypeError, "items must be tuples with two elements");
                 return 0;
             }
             std::pair< %(KEY_CTYPE)s, %(ITEM_CTYPE)s > item;
-            if (!%(KEY_CONVERTER)s(PyTuple_GET_ITEM(tup, 0), &item.first)) {
-                return 0;
-            }
-            if (!%(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second)) {
+            Py_INCREF(tup);
+            int ok = %(KEY_CONVERTER)s(PyTuple_GET_ITEM(tup, 0), &item.first)
+                && %(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second);
+            Py_DECREF(tup);
+            if (!ok) {
                 return 0;
             }
             result.%(ADD_VALUE)s(item);
-- 
2.43.0


From 591e28bfb513ebba3861eac77d90b37165609184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 039/123] fix: overrides of methods of a second base class saw
 a wrong object; base methods called on instances of Python subclasses of
 derived classes recursed forever

---
 pybindgen/cppclass.py  |  2 +-
 pybindgen/cppmethod.py | 20 ++++++++++++--------
 pybindgen/utils.py     | 10 ++++++++++
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 18079eb..872b039 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -375,7 +375,7 @@ class CppHelperClass(object):
         Returns True if all is well, False if a pure virtual method
         was found that could not be generated.
         """
-        code_sink.writeln("class %s : public %s\n{\npublic:" %
+        code_sink.writeln("class %s : public %s, public PyBindGenPythonHelperBase\n{\npublic:" %
                           (self.name, self.class_.full_name))
 
         code_sink.indent()
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 20fb525..670752b 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -258,10 +258,11 @@ class CppMethod(ForwardWrapperBase):
 
         if class_.helper_class is not None and self.is_virtual and not self.is_pure_virtual\
                 and not settings._get_deprecated_virtuals():
-            helper = self.before_call.declare_variable(type_="%s *" % class_.helper_class.name,
+            ## the object may be an instance of the helper class of a derived class
+            helper = self.before_call.declare_variable(type_="PyBindGenPythonHelperBase *",
                                                        name="helper_class",
                                                        initializer=(
-                    "dynamic_cast<%s*> (self->obj)" % class_.helper_class.name))
+                    "dynamic_cast<PyBindGenPythonHelperBase*> (self->obj)"))
         else:
             helper = None
 
@@ -1115,19 +1116,22 @@ Py_FatalError("Error detected, but parent virtual is pure virtual or private vir
         self.before_call.write_code('}')
 
         ## Set "m_pyself->obj = this" around virtual method call invocation
+        ## (the wrapper is of the class of the helper, which may have
+        ## inherited the method from one of several bases)
+        wrapper_class = self._helper_class.class_
         self_obj_before = self.declarations.declare_variable(
-            '%s*' % self.class_.full_name, 'self_obj_before')
+            '%s*' % wrapper_class.full_name, 'self_obj_before')
         self.before_call.write_code("%s = reinterpret_cast< %s* >(m_pyself)->obj;" %
-                                    (self_obj_before, self.class_.pystruct))
+                                    (self_obj_before, wrapper_class.pystruct))
         if self.method.is_const:
             this_expression = ("const_cast< %s* >((const %s*) this)" %
-                               (self.class_.full_name, self.class_.full_name))
+                               (wrapper_class.full_name, wrapper_class.full_name))
         else:
-            this_expression = "(%s*) this" % (self.class_.full_name)
+            this_expression = "(%s*) this" % (wrapper_class.full_name)
         self.before_call.write_code("reinterpret_cast< %s* >(m_pyself)->obj = %s;" %
-                                    (self.class_.pystruct, this_expression))
+                                    (wrapper_class.pystruct, this_expression))
         self.before_call.add_cleanup_code("reinterpret_cast< %s* >(m_pyself)->obj = %s;" %
-                                          (self.class_.pystruct, self_obj_before))
+                                          (wrapper_class.pystruct, self_obj_before))
 
         super(CppVirtualMethodProxy, self).generate(
             code_sink, '::'.join((self._helper_class.name, self.method_name)),
diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index af04804..bb528be 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -141,6 +141,16 @@ typedef enum _PyBindGenWrapperFlags {
 } PyBindGenWrapperFlags;
 #endif
 
+#if defined(__cplusplus) && !defined(_PyBindGenPythonHelperBase_defined_)
+#define _PyBindGenPythonHelperBase_defined_
+/* base of all the helper classes, to recognize instances of Python subclasses */
+class PyBindGenPythonHelperBase
+{
+public:
+    virtual ~PyBindGenPythonHelperBase() {}
+};
+#endif
+
 #if PY_VERSION_HEX >= 0x03070000 && !defined(PyEval_ThreadsInitialized)
 #define PyEval_ThreadsInitialized() 1
 #endif
-- 
2.43.0


From 1119f34137f06bc95a608b8f859fa169633f5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 040/123] fix: a pure virtual method without a working override
 aborted the process or recursed

---
 pybindgen/cppmethod.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 670752b..f77433d 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -256,13 +256,20 @@ class CppMethod(ForwardWrapperBase):
             else:
                 retval_assign = 'retval = '
 
-        if class_.helper_class is not None and self.is_virtual and not self.is_pure_virtual\
+        if class_.helper_class is not None and self.is_virtual \
                 and not settings._get_deprecated_virtuals():
             ## the object may be an instance of the helper class of a derived class
             helper = self.before_call.declare_variable(type_="PyBindGenPythonHelperBase *",
                                                        name="helper_class",
                                                        initializer=(
                     "dynamic_cast<PyBindGenPythonHelperBase*> (self->obj)"))
+            if self.is_pure_virtual:
+                ## there is nothing to call but the Python method, which called us or does not exist
+                self.before_call.write_error_check(
+                    "%s != NULL" % helper,
+                    'PyErr_SetString(PyExc_NotImplementedError, "%s.%s is not implemented");'
+                    % (class_.name, self.method_name))
+                helper = None
         else:
             helper = None
 
@@ -1098,18 +1105,21 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         else:
             if self.method.is_pure_virtual or self.method.visibility == 'private':
                 from . import cppclass
-                if isinstance(self.return_value, cppclass.CppClassReturnValue) \
-                        and self.return_value.cpp_class.has_trivial_constructor:
-                    pass
-                else:
+                if isinstance(self.return_value, (cppclass.CppClassReturnValue, cppclass.CppClassRefReturnValue)) \
+                        and not self.return_value.cpp_class.has_trivial_constructor:
                     self.set_error_return('''
-PyErr_Print();
 Py_FatalError("Error detected, but parent virtual is pure virtual or private virtual, "
               "and return is a class without trival constructor");''')
+                else:
+                    self.set_error_return(self.return_value.get_c_error_return())
             else:
                 self.set_error_return("return %s::%s(%s);"
                                       % (self.class_.full_name, self.method_name, call_params))
             self.before_call.indent()
+            if self.method.is_pure_virtual or self.method.visibility == 'private':
+                self.before_call.write_code(
+                    'PyErr_SetString(PyExc_NotImplementedError, "%s.%s is not implemented");'
+                    % (self.class_.name, self.method_name))
             self.before_call.write_cleanup()
             self.before_call.write_code(self.error_return)
             self.before_call.unindent()
-- 
2.43.0


From a7991639048a8dde00e41961d3b1e62309547eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 041/123] fix: objects of unwrapped classes with several bases
 lost the type of their nearest wrapped base

---
 pybindgen/cppclass.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 872b039..6d95340 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1356,6 +1356,30 @@ public:
 
             if settings.gcc_rtti_abi_complete:
                 code_sink.writeln('''
+#if defined(__GNUC__) && __GNUC__ >= 3 && !defined(__clang__)
+   // looks at the base classes that share their address with the object
+   PyTypeObject * lookup_base(const std::type_info &cpp_type_info)
+   {
+       std::map<std::string, PyTypeObject *>::const_iterator iter = m_map.find(cpp_type_info.name());
+       if (iter != m_map.end() && iter->second)
+           return iter->second;
+       if (const abi::__si_class_type_info *single =
+           dynamic_cast<const abi::__si_class_type_info*> (&cpp_type_info))
+           return lookup_base(*single->__base_type);
+       if (const abi::__vmi_class_type_info *multiple =
+           dynamic_cast<const abi::__vmi_class_type_info*> (&cpp_type_info)) {
+           for (unsigned int i = 0; i < multiple->__base_count; i++) {
+               const abi::__base_class_type_info &base = multiple->__base_info[i];
+               if (base.__is_virtual_p() || base.__offset() != 0)
+                   continue;
+               if (PyTypeObject *python_wrapper = lookup_base(*base.__base_type))
+                   return python_wrapper;
+           }
+       }
+       return NULL;
+   }
+#endif
+
    PyTypeObject * lookup_wrapper(const std::type_info &cpp_type_info, PyTypeObject *fallback_wrapper)
    {
 
@@ -1369,19 +1393,9 @@ public:
        else {
 #if defined(__GNUC__) && __GNUC__ >= 3 && !defined(__clang__)
 
-           // Get closest (in the single inheritance tree provided by cxxabi.h)
+           // Get closest (in the inheritance tree provided by cxxabi.h)
            // registered python wrapper.
-           const abi::__si_class_type_info *_typeinfo =
-               dynamic_cast<const abi::__si_class_type_info*> (&cpp_type_info);
-#if PBG_TYPEMAP_DEBUG
-          std::cerr << "  -> looking at C++ type " << _typeinfo->name() << std::endl;
-#endif
-           while (_typeinfo && (python_wrapper = m_map[std::string(_typeinfo->name())]) == 0) {
-               _typeinfo = dynamic_cast<const abi::__si_class_type_info*> (_typeinfo->__base_type);
-#if PBG_TYPEMAP_DEBUG
-               std::cerr << "  -> looking at C++ type " << _typeinfo->name() << std::endl;
-#endif
-           }
+           python_wrapper = lookup_base(cpp_type_info);
 
 #if PBG_TYPEMAP_DEBUG
           if (python_wrapper) {
-- 
2.43.0


From 5e09bd46437139bd6358ec79c44e994964a2fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 042/123] fix: a class that cannot be subclassed corrupted
 instances of derived classes that can

---
 pybindgen/cppclass.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6d95340..2d74cd7 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1841,8 +1841,8 @@ public:
 typedef struct {
     PyObject_HEAD
     %sobj;
-    PyObject *inst_dict;
     PyBindGenWrapperFlags flags:8;
+    PyObject *inst_dict; /* last: parent classes may not have it */
 } %s;
     ''' % (pointer_type, self.pystruct))
 
@@ -2709,8 +2709,13 @@ if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
             new_func = 'PyObject_New'
         if wrapper_type is None:
             wrapper_type = '&'+self.pytypestruct
-        code_block.write_code("%s = %s(%s, %s);" %
-                              (lvalue, new_func, self.pystruct, wrapper_type))
+        if not self.allow_subclassing and wrapper_type != '&'+self.pytypestruct:
+            ## it may be the type of a derived class that allows subclassing
+            code_block.write_code("%s = (%s *) %s->tp_alloc(%s, 0);" %
+                                  (lvalue, self.pystruct, wrapper_type, wrapper_type))
+        else:
+            code_block.write_code("%s = %s(%s, %s);" %
+                                  (lvalue, new_func, self.pystruct, wrapper_type))
         init_code = ''
         if self.memory_policy is not None:
             init_code = self.memory_policy.get_pystruct_init_code(self, lvalue)
-- 
2.43.0


From f469ad3d6e0205b51536284e3a51b103fb60ad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 043/123] fix: results that refer to an existing object were
 never narrowed to its dynamic type

---
 pybindgen/cppclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 2d74cd7..d777079 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2763,8 +2763,8 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
         ## automatic_type_narrowing is active and we are not forced to
         ## make a copy of the object
         if (cpp_class.automatic_type_narrowing
-            and (caller_owns_return or isinstance(cpp_class.memory_policy,
-                                                  ReferenceCountingPolicy))):
+            and (caller_owns_return or reference_existing_object or not caller_manages_return
+                 or isinstance(cpp_class.memory_policy, ReferenceCountingPolicy))):
 
             typeid_map_name = cpp_class.get_type_narrowing_root().typeid_map_name
             wrapper_type = code_block.declare_variable(
-- 
2.43.0


From 69e2943fe621b90d719977c30a4fa9d4b4238666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 044/123] fix: calls that unblock threads crashed when they
 threw a declared exception

---
 pybindgen/cppmethod.py         | 20 ++------------------
 pybindgen/function.py          | 10 +---------
 pybindgen/typehandlers/base.py | 23 +++++++++++++++++++++++
 3 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index f77433d..e4b1c3d 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -305,15 +305,7 @@ class CppMethod(ForwardWrapperBase):
                            )))
 
         if self.throw:
-            for exc in self.throw:
-                self.before_call.unindent()
-                self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
-                self.before_call.indent()
-                self.before_call.write_cleanup()
-                exc.write_convert_to_python(self.before_call, 'exc')
-                self.before_call.write_code('return NULL;')
-            self.before_call.unindent()
-            self.before_call.write_code('}')
+            self.write_catch_blocks(self.throw, 'return NULL;')
 
     def _before_call_hook(self):
         "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
@@ -703,15 +695,7 @@ class CppConstructor(ForwardWrapperBase):
             self.before_call.write_code("}")
 
         if self.throw:
-            for exc in self.throw:
-                self.before_call.unindent()
-                self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
-                self.before_call.indent()
-                self.before_call.write_cleanup()
-                exc.write_convert_to_python(self.before_call, 'exc')
-                self.before_call.write_code('return -1;')
-            self.before_call.unindent()
-            self.before_call.write_code('}')
+            self.write_catch_blocks(self.throw, 'return -1;')
 
     def _before_call_hook(self):
         "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 6d4069b..db8d189 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -210,15 +210,7 @@ class Function(ForwardWrapperBase):
                                               ", ".join(self.call_params)))
 
         if self.throw:
-            for exc in self.throw:
-                self.before_call.unindent()
-                self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
-                self.before_call.indent()
-                self.before_call.write_cleanup()
-                exc.write_convert_to_python(self.before_call, 'exc')
-                self.before_call.write_code('return NULL;')
-            self.before_call.unindent()
-            self.before_call.write_code('}')
+            self.write_catch_blocks(self.throw, 'return NULL;')
 
     def _before_call_hook(self):
         "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 9bf5dd6..10ed420 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -873,6 +873,28 @@ class ForwardWrapperBase(object):
         code_sink.writeln('}')
 
 
+    def write_catch_blocks(self, exceptions, error_return):
+        """
+        Generate the code, to go after the C++ call inside a try block, that
+        converts the given C++ exceptions into Python exceptions.
+
+        exceptions -- list of CppException
+        error_return -- code to return from the wrapper
+        """
+        for exc in exceptions:
+            self.before_call.unindent()
+            self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
+            self.before_call.indent()
+            if self.unblock_threads:
+                self.before_call.write_code(
+                    "if (%s)\n"
+                    "     PyEval_RestoreThread(%s);" % (self.py_thread_state, self.py_thread_state))
+            self.before_call.write_cleanup()
+            exc.write_convert_to_python(self.before_call, 'exc')
+            self.before_call.write_code(error_return)
+        self.before_call.unindent()
+        self.before_call.write_code('}')
+
     def generate_body(self, code_sink, gen_call_params=()):
         """Generate the wrapper function body
         code_sink -- a CodeSink object that will receive the code
@@ -880,6 +902,7 @@ class ForwardWrapperBase(object):
 
         if self.unblock_threads:
             py_thread_state = self.declarations.declare_variable("PyThreadState*", "py_thread_state", "NULL")
+            self.py_thread_state = py_thread_state
             self.after_call.write_code(
                 "\nif (%s)\n"
                 "     PyEval_RestoreThread(%s);\n" % (py_thread_state, py_thread_state))
-- 
2.43.0


From e634bfcffe91e55ffa1d39bb98670817a891cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 045/123] fix: a call that failed leaked the object made for an
 output parameter

---
 pybindgen/cppclass.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d777079..a97fd15 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3216,10 +3216,7 @@ class CppClassRefParameter(CppClassParameterBase):
                 self.cpp_class.pystruct+'*', self.name)
 
             self.cpp_class.write_allocate_pystruct(wrapper.before_call, self.py_name)
-            if self.cpp_class.allow_subclassing:
-                wrapper.after_call.write_code(
-                    "%s->inst_dict = NULL;" % (self.py_name,))
-            wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
+            wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
 
             self.cpp_class.write_create_instance(wrapper.before_call,
                                                  "%s->obj" % self.py_name,
@@ -3229,7 +3226,9 @@ class CppClassRefParameter(CppClassParameterBase):
                                                              "%s->obj" % self.py_name,
                                                              '')
             wrapper.call_params.append('*%s->obj' % (self.py_name,))
-            wrapper.build_params.add_parameter("N", [self.py_name])
+            ## it is released in any case, also if something fails before it is returned
+            wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % (self.py_name,))
+            wrapper.build_params.add_parameter("O", [self.py_name])
 
         ## well, personally I think inout here doesn't make much sense
         ## (it's just plain confusing), but might as well support it..
-- 
2.43.0


From bd50cae0f0ec737c1acfd70880b334ac36aba116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 046/123] fix: exceptions declared for protected virtual
 methods were not caught

---
 pybindgen/cppmethod.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index e4b1c3d..77f428d 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -878,7 +878,8 @@ class CppVirtualMethodParentCaller(CppMethod):
 
     def __init__(self, method, unblock_threads=None):
         super(CppVirtualMethodParentCaller, self).__init__(
-            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads)
+            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads,
+            throw=method.throw)
         #self.static_decl = False
         self.method = method
 
@@ -943,6 +944,10 @@ class CppVirtualMethodParentCaller(CppMethod):
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
 
+        if self.throw:
+            self.before_call.write_code('try\n{')
+            self.before_call.indent()
+
         if self.return_value.ctype == 'void':
             self.before_call.write_code(
                 '%s(%s);' %
@@ -957,6 +962,9 @@ class CppVirtualMethodParentCaller(CppMethod):
                     'retval = %s(%s);' %
                     (method, ", ".join(self.call_params)))
 
+        if self.throw:
+            self.write_catch_blocks(self.throw, 'return NULL;')
+
     def get_py_method_def(self, method_name=None):
         "Get the PyMethodDef entry suitable for this method"
 
-- 
2.43.0


From 505034b3a0d3c6d64f81c65de3dcdf677c7ded1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 047/123] fix: an exception in a void virtual method of the
 base class left the lock and references held

---
 pybindgen/cppmethod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 77f428d..a0b348b 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1087,11 +1087,11 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         self.before_call.write_code(
             r'if (%s == NULL || Py_TYPE(%s) == &PyCFunction_Type) {' % (py_method, py_method))
         if self.return_value.ctype == 'void':
+            self.before_call.indent()
+            self.before_call.write_cleanup()    # before the call, which may throw
             if not (self.method.is_pure_virtual or self.method.visibility == 'private'):
-                self.before_call.write_code(r'    %s::%s(%s);'
+                self.before_call.write_code(r'%s::%s(%s);'
                                             % (self.class_.full_name, self.method_name, call_params))
-            self.before_call.indent()
-            self.before_call.write_cleanup()
             self.before_call.write_code('return;')
             self.before_call.unindent()
         else:
-- 
2.43.0


From c75e873acbd9699250ca7616024c767d9ff4e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 048/123] fix: classes with virtual methods that throw did not
 compile as C++17

---
 pybindgen/cppmethod.py | 4 ++--
 pybindgen/utils.py     | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index a0b348b..23c8591 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1053,7 +1053,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
             decl_post_modifiers = ''
 
         if self.method.throw:
-            decl_post_modifiers += " throw (%s)" % (', '.join([ex.full_name for ex in self.method.throw]),)
+            decl_post_modifiers += " PYBINDGEN_THROW((%s))" % (', '.join([ex.full_name for ex in self.method.throw]),)
 
         params_list = ', '.join([join_ctype_and_name(param.ctype, param.name)
                                  for param in self.parameters])
@@ -1070,7 +1070,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
             decl_post_modifiers = []
 
         if self.method.throw:
-            decl_post_modifiers.append("throw (%s)" % (', '.join([ex.full_name for ex in self.method.throw]),))
+            decl_post_modifiers.append("PYBINDGEN_THROW((%s))" % (', '.join([ex.full_name for ex in self.method.throw]),))
 
         ## if the python subclass doesn't define a virtual method,
         ## just chain to parent class and don't do anything else
diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index bb528be..d4cea05 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -133,6 +133,12 @@ typedef void* cmpfunc;
 # define PYBINDGEN_UNUSED(param) param
 #endif  /* !__GNUC__ */
 
+#if defined(__cplusplus) && __cplusplus >= 201703L
+# define PYBINDGEN_THROW(exceptions) /* dynamic exception specifications are gone */
+#else
+# define PYBINDGEN_THROW(exceptions) throw exceptions
+#endif
+
 #ifndef _PyBindGenWrapperFlags_defined_
 #define _PyBindGenWrapperFlags_defined_
 typedef enum _PyBindGenWrapperFlags {
-- 
2.43.0


From d2fb6509e820510df091d4237e275cd21e0ef73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 049/123] fix: a NULL pointer result becomes None without
 skipping the rest of the wrapper

---
 pybindgen/cppclass.py               | 16 ++++++++++------
 pybindgen/typehandlers/smart_ptr.py | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index a97fd15..c4263c2 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3817,23 +3817,27 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
 
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, return None
+        wrapper.after_call.write_code("if (!(%s)) {" % value)
+        wrapper.after_call.indent()
+        wrapper.after_call.write_code("%s = (%s *) Py_None;" % (py_name, self.cpp_class.pystruct))
+        wrapper.after_call.write_code("Py_INCREF(Py_None);")
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("} else {")
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, self.caller_owns_return,
                                     self.reference_existing_object,
                                     type_is_pointer=True,
                                     caller_manages_return=self.caller_manages_return,
                                     free_after_copy=self.free_after_copy)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index e8307c9..f7b3d09 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -336,21 +336,25 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
         
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, return None
+        wrapper.after_call.write_code("if (!(%s)) {" % value)
+        wrapper.after_call.indent()
+        wrapper.after_call.write_code("%s = (%s *) Py_None;" % (py_name, self.cpp_class.pystruct))
+        wrapper.after_call.write_code("Py_INCREF(Py_None);")
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("} else {")
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, caller_owns_return=True,
                                     reference_existing_object=False,
                                     type_is_pointer=True)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
-- 
2.43.0


From 8515410548826ba5b059f744c61b75f4e5afc21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 050/123] fix: import the exception raised for a wrong
 custodian/ward declaration

---
 pybindgen/cppmethod.py | 2 +-
 pybindgen/function.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 23c8591..8561948 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -7,7 +7,7 @@ import traceback
 from copy import copy
 
 from pybindgen.typehandlers.base import ForwardWrapperBase, ReverseWrapperBase, \
-    join_ctype_and_name, CodeGenerationError
+    join_ctype_and_name, CodeGenerationError, TypeConfigurationError
 from pybindgen.typehandlers.base import ReturnValue, Parameter
 from pybindgen.typehandlers import codesink
 from pybindgen import overloading
diff --git a/pybindgen/function.py b/pybindgen/function.py
index db8d189..fffcc3a 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -13,7 +13,7 @@ else:
 
 from copy import copy
 
-from pybindgen.typehandlers.base import ForwardWrapperBase, ReturnValue
+from pybindgen.typehandlers.base import ForwardWrapperBase, ReturnValue, TypeConfigurationError
 from pybindgen.typehandlers import codesink
 from pybindgen.cppexception import CppException
 
-- 
2.43.0


From f52d0661a0501e50879ebec928a42983db39f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 051/123] fix: custodians keep equal wards apart, skip missing
 objects and report errors

---
 pybindgen/cppclass.py | 26 ++++++++--------------
 pybindgen/utils.py    | 51 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index c4263c2..489bd44 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3928,22 +3928,9 @@ def scan_custodians_and_wards(wrapper):
 
 
 
-def _add_ward(code_block, custodian, ward):
-    wards = code_block.declare_variable(
-        'PyObject*', 'wards')
-    code_block.write_code(
-        "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
-        % vars())
-    code_block.write_code(
-        "if (%(wards)s == NULL) {\n"
-        "    PyErr_Clear();\n"
-        "    %(wards)s = PyList_New(0);\n"
-        "    PyObject_SetAttrString(%(custodian)s, (char *) \"__wards__\", %(wards)s);\n"
-        "}" % vars())
-    code_block.write_code(
-        "if (%(ward)s && !PySequence_Contains(%(wards)s, %(ward)s))\n"
-        "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
-    code_block.add_cleanup_code("Py_DECREF(%s);" % wards)
+def _add_ward(code_block, custodian, ward, failure_cleanup=None):
+    code_block.write_error_check(
+        "PyBindGenAddWard(%s, %s) < 0" % (custodian, ward), failure_cleanup)
 
 
 def _get_custodian_or_ward(wrapper, num):
@@ -3966,10 +3953,15 @@ def implement_parameter_custodians_precall(wrapper):
 
 
 def implement_parameter_custodians_postcall(wrapper):
+    py_retval = getattr(wrapper.return_value, "py_name", None)
+    failure_cleanup = None
+    if py_retval is not None:
+        failure_cleanup = "Py_XDECREF((PyObject *) %s);" % py_retval
     for custodian, ward, postcall in wrapper.custodians_and_wards:
         if postcall:
             _add_ward(wrapper.after_call,
                       _get_custodian_or_ward(wrapper, custodian),
-                      _get_custodian_or_ward(wrapper, ward))
+                      _get_custodian_or_ward(wrapper, ward),
+                      failure_cleanup)
 
 
diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index d4cea05..b9b0606 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -139,6 +139,57 @@ typedef void* cmpfunc;
 # define PYBINDGEN_THROW(exceptions) throw exceptions
 #endif
 
+/* make custodian keep ward alive; a missing or None object on either side is not an error */
+PYBINDGEN_UNUSED(static inline int PyBindGenAddWard(PyObject *custodian, PyObject *ward));
+static inline int
+PyBindGenAddWard(PyObject *custodian, PyObject *ward)
+{
+    PyObject *name, *wards;
+    Py_ssize_t i;
+    int retval = 0;
+
+    if (custodian == NULL || custodian == Py_None || ward == NULL || ward == Py_None) {
+        return 0;
+    }
+#if PY_VERSION_HEX >= 0x03000000
+    name = PyUnicode_FromString("__wards__");
+#else
+    name = PyString_FromString("__wards__");
+#endif
+    if (name == NULL) {
+        return -1;
+    }
+    wards = PyObject_GenericGetAttr(custodian, name);
+    if (wards == NULL) {
+        if (!PyErr_ExceptionMatches(PyExc_AttributeError)) {
+            Py_DECREF(name);
+            return -1;
+        }
+        PyErr_Clear();
+        wards = PyList_New(0);
+        if (wards == NULL || PyObject_GenericSetAttr(custodian, name, wards) < 0) {
+            Py_XDECREF(wards);
+            Py_DECREF(name);
+            return -1;
+        }
+    }
+    Py_DECREF(name);
+    if (!PyList_Check(wards)) {
+        PyErr_SetString(PyExc_TypeError, "__wards__ must be a list");
+        Py_DECREF(wards);
+        return -1;
+    }
+    for (i = 0; i < PyList_GET_SIZE(wards); i++) {
+        if (PyList_GET_ITEM(wards, i) == ward) {
+            Py_DECREF(wards);
+            return 0;
+        }
+    }
+    retval = PyList_Append(wards, ward);
+    Py_DECREF(wards);
+    return retval;
+}
+
 #ifndef _PyBindGenWrapperFlags_defined_
 #define _PyBindGenWrapperFlags_defined_
 typedef enum _PyBindGenWrapperFlags {
-- 
2.43.0


From 46d98d04097c245d8dd0b109dd5fc5a3957293e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 052/123] fix: look at the real type of an object before using
 it as a wrapper

---
 pybindgen/container.py              |  4 ++--
 pybindgen/cppclass.py               | 14 +++++++-------
 pybindgen/typehandlers/smart_ptr.py |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 9743c8c..1bc46b6 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -538,7 +538,7 @@ static PyObject*
             code_sink.writeln(r'''
 int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
 {
-    if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
+    if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         %(CTYPE)s result;
@@ -575,7 +575,7 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
             code_sink.writeln(r'''
 int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
 {
-    if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
+    if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         %(CTYPE)s result;
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 489bd44..3cf13b4 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2648,7 +2648,7 @@ static void
         code_sink.indent()
 
         code_sink.writeln("""
-if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
+if (!PyObject_TypeCheck((PyObject *) other, &%s)) {
     Py_INCREF(Py_NotImplemented);
     return Py_NotImplemented;
 }""" % self.pytypestruct)
@@ -3064,7 +3064,7 @@ class CppClassParameter(CppClassParameterBase):
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name, optional=True)
 
                 if self.default_value is None:
-                    wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable,
@@ -3075,13 +3075,13 @@ class CppClassParameter(CppClassParameterBase):
                         "    %s = %s;" %
                         (self.py_name, tmp_value_variable, self.default_value))
                     wrapper.before_call.write_code(
-                        "} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                        "} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable,
                                                     self.cpp_class.pystruct, self.py_name))
                 for conversion_source in implicit_conversion_sources:
-                    wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, conversion_source.pytypestruct,
                                                     tmp_value_variable,
@@ -3188,13 +3188,13 @@ class CppClassRefParameter(CppClassParameterBase):
                         self.cpp_class.full_name, self.name)
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name)
 
-                    wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable,
                                                     self.cpp_class.pystruct, self.py_name))
                     for conversion_source in implicit_conversion_sources:
-                        wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                        wrapper.before_call.write_code("} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                        "    %s = *((%s *) %s)->obj;" %
                                                        (self.py_name, conversion_source.pytypestruct,
                                                         tmp_value_variable,
@@ -3515,7 +3515,7 @@ class CppClassPtrParameter(CppClassParameterBase):
 
                 wrapper.before_call.write_error_check(
 
-                    "%s && ((PyObject *) %s != Py_None) && !PyObject_IsInstance((PyObject *) %s, (PyObject *) &%s)"
+                    "%s && ((PyObject *) %s != Py_None) && !PyObject_TypeCheck((PyObject *) %s, &%s)"
                     % (self.py_name, self.py_name, self.py_name, self.cpp_class.pytypestruct),
 
                     'PyErr_SetString(PyExc_TypeError, "Parameter %i must be of type %s");' % (num, self.cpp_class.name))
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index f7b3d09..3e3f307 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -183,7 +183,7 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.write_error_check(
 
-                "%s && ((PyObject *) %s != Py_None) && !PyObject_IsInstance((PyObject *) %s, (PyObject *) &%s)"
+                "%s && ((PyObject *) %s != Py_None) && !PyObject_TypeCheck((PyObject *) %s, &%s)"
                 % (self.py_name, self.py_name, self.py_name, self.cpp_class.pytypestruct),
 
                 'PyErr_SetString(PyExc_TypeError, "Parameter %i must be of type %s");' % (num, self.cpp_class.name))
-- 
2.43.0


From b5bd336b74eb34323cd29f935a5731f213c5ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 053/123] fix: name of the iterator type of a nested container
 class

---
 pybindgen/cppclass_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass_container.py b/pybindgen/cppclass_container.py
index 3274942..d7181e9 100644
--- a/pybindgen/cppclass_container.py
+++ b/pybindgen/cppclass_container.py
@@ -144,7 +144,7 @@ typedef struct {
         else:
             module.after_init.write_code(
                 'PyDict_SetItemString((PyObject*) %s.tp_dict, (char *) \"%s\", (PyObject *) &%s);' % (
-                self.cppclass.outer_class.pytypestruct, self.cppclass.get_iter_python_name(), self.iter_pytypestruct))
+                self.cppclass.outer_class.pytypestruct, self.get_iter_python_name(), self.iter_pytypestruct))
 
         self._generate_gc_methods(code_sink)
         self._generate_destructor(code_sink)
-- 
2.43.0


From a102ac0a3981fc4c5f5be8763a410fb95a1dba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 054/123] fix: destroy an iterator before releasing the
 container it refers to

---
 pybindgen/container.py          | 4 ++--
 pybindgen/cppclass_container.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 1bc46b6..6ac8d16 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -410,8 +410,8 @@ typedef struct {
 static void
 %s(%s *self)
 {
-    Py_CLEAR(self->container);
     %s
+    Py_CLEAR(self->container);
 }
 ''' % (tp_clear_function_name, self.iter_pystruct, self._get_iter_delete_code()))
 
@@ -454,8 +454,8 @@ static void
 %s(%s *self)
 {
     PyObject_GC_UnTrack((PyObject *) self);
-    Py_CLEAR(self->container);
     %s
+    Py_CLEAR(self->container);
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 ''' % (iter_tp_dealloc_function_name, self.iter_pystruct, self._get_iter_delete_code()))
diff --git a/pybindgen/cppclass_container.py b/pybindgen/cppclass_container.py
index d7181e9..c214ceb 100644
--- a/pybindgen/cppclass_container.py
+++ b/pybindgen/cppclass_container.py
@@ -182,8 +182,8 @@ typedef struct {
 static void
 %s(%s *self)
 {
-    Py_CLEAR(self->container);
     %s
+    Py_CLEAR(self->container);
 }
 ''' % (tp_clear_function_name, self.iter_pystruct, self._get_iter_delete_code()))
 
@@ -211,8 +211,8 @@ static void
 %s(%s *self)
 {
     PyObject_GC_UnTrack((PyObject *) self);
-    Py_CLEAR(self->container);
     %s
+    Py_CLEAR(self->container);
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 ''' % (iter_tp_dealloc_function_name, self.iter_pystruct, self._get_iter_delete_code()))
-- 
2.43.0


From ebc4032e9787271744877131239bf2d9c5e0f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 055/123] fix: sequence methods hand on exceptions and indexes
 as they are

__len__, __contains__ and __setitem__ replaced the exception of the
wrapped method by one of their own, __getitem__ let it pass together with
a result unless it was IndexError, a failure status of __setitem__
became an error without an exception, del object[i] passed NULL as the
value, indexes were cut to the width of an int, and an answer of
__contains__ other than 0 and 1 confused 'not in'.
---
 pybindgen/pytypeobject.py | 76 ++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index e045cd2..21c4ac6 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -293,13 +293,14 @@ static Py_ssize_t
 
     py_result = %(method_name)s(py_self, NULL, NULL);
     if (py_result == NULL) {
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
-        Py_XDECREF(py_result);
         return -1;
     }
     result = PyLong_AsSsize_t(py_result);
     Py_DECREF(py_result);
-    return result;
+    if (result < 0 && !PyErr_Occurred()) {
+        PyErr_SetString(PyExc_ValueError, "__len__() should return >= 0");
+    }
+    return PyErr_Occurred() ? -1 : result;
 }
 
 ''',
@@ -319,13 +320,14 @@ static Py_ssize_t
     py_result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (py_result == NULL) {
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
-        Py_XDECREF(py_result);
         return -1;
     }
     result = PyLong_AsSsize_t(py_result);
     Py_DECREF(py_result);
-    return result;
+    if (result < 0 && !PyErr_Occurred()) {
+        PyErr_SetString(PyExc_ValueError, "__len__() should return >= 0");
+    }
+    return PyErr_Occurred() ? -1 : result;
 }
 
 ''',
@@ -354,7 +356,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
@@ -370,16 +372,14 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
-    if (PyErr_ExceptionMatches(PyExc_IndexError) ||
-        PyErr_ExceptionMatches(PyExc_StopIteration)) {
-        Py_XDECREF(result);
-        return NULL;
-    } else {
-        return result;
+    /* the wrapped method may have set an exception by itself */
+    if (PyErr_Occurred()) {
+        Py_CLEAR(result);
     }
+    return result;
 }
 
 
@@ -394,16 +394,14 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(ii)", py_i1, py_i2);
+    args = Py_BuildValue("(nn)", py_i1, py_i2);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
-    if (PyErr_ExceptionMatches(PyExc_IndexError) ||
-        PyErr_ExceptionMatches(PyExc_StopIteration)) {
-        Py_XDECREF(result);
-        return NULL;
-    } else {
-        return result;
+    /* the wrapped method may have set an exception by itself */
+    if (PyErr_Occurred()) {
+        Py_CLEAR(result);
     }
+    return result;
 }
 #endif
 ''',
@@ -416,17 +414,21 @@ static int
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(iO)", py_i, py_val);
+    if (py_val == NULL) {
+        PyErr_Format(PyExc_TypeError, "'%%.200s' object doesn't support item deletion", Py_TYPE(py_self)->tp_name);
+        return -1;
+    }
+    args = Py_BuildValue("(nO)", py_i, py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
-        PyErr_SetString(PyExc_IndexError, "Unknown error trying to set value in container.");
         return -1;
 #if PY_MAJOR_VERSION >= 3
     } else if (PyLong_Check(result) == 0) {
 #else
     } else if (PyInt_Check(result) == 0) {
 #endif
+        Py_DECREF(result);
         PyErr_SetString(PyExc_IndexError, "Error trying to set value in container -- wrapped method should return integer status.");
         return -1;
     } else {
@@ -436,7 +438,10 @@ static int
         int iresult = int(PyInt_AS_LONG(result));
 #endif
         Py_DECREF(result);
-        return iresult;
+        if (iresult != 0 && !PyErr_Occurred()) {
+            PyErr_SetString(PyExc_IndexError, "Unknown error trying to set value in container.");
+        }
+        return PyErr_Occurred() ? -1 : 0;
     }
 }
 
@@ -451,7 +456,7 @@ static int
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(iiO)", py_i1, py_i2, py_vals);
+    args = Py_BuildValue("(nnO)", py_i1, py_i2, py_vals);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
@@ -480,23 +485,12 @@ static int
     args = Py_BuildValue("(O)", py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
-#if PY_MAJOR_VERSION >= 3
-    if (result == NULL || PyLong_Check(result) == 0) {
-#else
-    if (result == NULL || PyInt_Check(result) == 0) {
-#endif
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to test __contains__.");
-        Py_XDECREF(result);
+    if (result == NULL) {
         return -1;
-    } else {
-#if PY_MAJOR_VERSION >= 3
-        int iresult = int(PyLong_AS_LONG(result));
-#else
-        int iresult = int(PyInt_AS_LONG(result));
-#endif
-        Py_DECREF(result);
-        return iresult;
     }
+    int iresult = PyObject_IsTrue(result);
+    Py_DECREF(result);
+    return PyErr_Occurred() ? -1 : iresult;
 }
 
 ''',
@@ -525,7 +519,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
-- 
2.43.0


From b2a6063a8e999da0d3ed7a39101b910a4f018369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 056/123] fix: an operator of a class does not hide the base
 class's for other operands

A derived class which declares a comparison, or an operator for some
operands, lost the ones its base class declares.  Likewise objects that
compare equal were also different when only == is declared.
---
 pybindgen/cppclass.py | 51 +++++++++++++++++++++++++++++++++----------
 pybindgen/utils.py    |  2 ++
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 3cf13b4..1542073 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2081,6 +2081,18 @@ typedef struct {
                 get_c_to_python_converter(retval, root_module, code_sink)
                 get_python_to_c_converter(left, root_module, code_sink)
 
+        def write_try_base_operator(slot_name, args):
+            # what this class does not declare, a base class may
+            for base in self.bases:
+                code_sink.writeln(
+                    "if (%(BASE)s.tp_as_number && %(BASE)s.tp_as_number->%(SLOT)s) {\n"
+                    "    PyObject *py_result = %(BASE)s.tp_as_number->%(SLOT)s(%(ARGS)s);\n"
+                    "    if (py_result != Py_NotImplemented) {\n"
+                    "        return py_result;\n"
+                    "    }\n"
+                    "    Py_DECREF(py_result);\n"
+                    "}" % dict(BASE=base.pytypestruct, SLOT=slot_name, ARGS=args))
+
         def try_wrap_operator(op_symbol, slot_name):
             if op_symbol in self.binary_numeric_operators:
                 op_types = self.binary_numeric_operators[op_symbol]
@@ -2117,6 +2129,7 @@ typedef struct {
                 code_sink.unindent()
                 code_sink.writeln("}")
 
+            write_try_base_operator(slot_name, "py_left, py_right")
             code_sink.writeln("Py_INCREF(Py_NotImplemented);")
             code_sink.writeln("return Py_NotImplemented;")
             code_sink.unindent()
@@ -2154,6 +2167,7 @@ typedef struct {
                 code_sink.unindent()
                 code_sink.writeln("}")
 
+            write_try_base_operator(slot_name, "py_self")
             code_sink.writeln("Py_INCREF(Py_NotImplemented);")
             code_sink.writeln("return Py_NotImplemented;")
             code_sink.unindent()
@@ -2648,17 +2662,15 @@ static void
         code_sink.indent()
 
         code_sink.writeln("""
-if (!PyObject_TypeCheck((PyObject *) other, &%s)) {
-    Py_INCREF(Py_NotImplemented);
-    return Py_NotImplemented;
-}""" % self.pytypestruct)
+if (PyObject_TypeCheck((PyObject *) other, &%s)) {""" % self.pytypestruct)
+        code_sink.indent()
 
         code_sink.writeln("switch (opid)\n{")
 
         def wrap_operator(name, opid_code):
-            code_sink.writeln("case %s:" % opid_code)
-            code_sink.indent()
             if name in self.binary_comparison_operators:
+                code_sink.writeln("case %s:" % opid_code)
+                code_sink.indent()
                 code_sink.writeln("if (*self->obj %(OP)s *other->obj) {\n"
                                   "    Py_INCREF(Py_True);\n"
                                   "    return Py_True;\n"
@@ -2666,10 +2678,7 @@ if (!PyObject_TypeCheck((PyObject *) other, &%s)) {
                                   "    Py_INCREF(Py_False);\n"
                                   "    return Py_False;\n"
                                   "}" % dict(OP=name))
-            else:
-                code_sink.writeln("Py_INCREF(Py_NotImplemented);\n"
-                                  "return Py_NotImplemented;")
-            code_sink.unindent()
+                code_sink.unindent()
 
         wrap_operator('<', 'Py_LT')
         wrap_operator('<=', 'Py_LE')
@@ -2679,9 +2688,27 @@ if (!PyObject_TypeCheck((PyObject *) other, &%s)) {
         wrap_operator('>', 'Py_GT')
 
         code_sink.writeln("} /* closes switch (opid) */")
+        code_sink.unindent()
+        code_sink.writeln("}")
 
-        code_sink.writeln("Py_INCREF(Py_NotImplemented);\n"
-                          "return Py_NotImplemented;")
+        # what this class does not declare, a base class may
+        for base in self.bases:
+            code_sink.writeln(
+                "if (%(BASE)s.tp_richcompare) {\n"
+                "    PyObject *py_result = %(BASE)s.tp_richcompare((PyObject *) self, (PyObject *) other, opid);\n"
+                "    if (py_result != Py_NotImplemented) {\n"
+                "        return py_result;\n"
+                "    }\n"
+                "    Py_DECREF(py_result);\n"
+                "}" % dict(BASE=base.pytypestruct))
+
+        # what is equal is not different
+        code_sink.writeln("#if PY_VERSION_HEX >= 0x03000000\n"
+                          "return PyBaseObject_Type.tp_richcompare((PyObject *) self, (PyObject *) other, opid);\n"
+                          "#else\n"
+                          "Py_INCREF(Py_NotImplemented);\n"
+                          "return Py_NotImplemented;\n"
+                          "#endif")
 
         code_sink.unindent()
         code_sink.writeln("}\n")
diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index b9b0606..ea851c1 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -120,6 +120,8 @@ typedef void* cmpfunc;
 #define PyCObject_AsVoidPtr(a) PyCapsule_GetPointer(a, NULL)
 #define PyString_FromString(a) PyBytes_FromString(a)
 #define Py_TPFLAGS_CHECKTYPES 0 /* this flag doesn't exist in python 3 */
+#define nb_divide nb_true_divide /* these slots have other names in python 3 */
+#define nb_inplace_divide nb_inplace_true_divide
 #endif
 ''')
 
-- 
2.43.0


From 9d50c4e1ecea99ac7301e35ad78cd130c6b3b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 057/123] fix: str() of a class with an output stream operator
 keeps NUL characters

---
 pybindgen/cppclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 1542073..d17700e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2545,7 +2545,8 @@ static PyObject *
 {
     std::ostringstream oss;
     oss << *self->obj;
-    return PyUnicode_FromString(oss.str ().c_str ());
+    std::string str = oss.str ();
+    return PyUnicode_FromStringAndSize(str.data (), str.size ());
 }
 
 ''' % (tp_str_function_name, self.pystruct))
-- 
2.43.0


From 5cec5f672a000f74d23238ac4f97f2313ec3b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 058/123] fix: generate a unary operator also when it is the
 only numeric operator

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d17700e..9ed880a 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2042,7 +2042,7 @@ typedef struct {
         if self.slots.get("tp_richcompare", "NULL") == "NULL" and self.binary_comparison_operators:
             self.slots["tp_richcompare"] = self._generate_tp_richcompare(code_sink)
 
-        if self.binary_numeric_operators or self.inplace_numeric_operators:
+        if self.binary_numeric_operators or self.inplace_numeric_operators or self.unary_numeric_operators:
             self.slots["tp_as_number"] = self._generate_number_methods(code_sink)
 
         if self.have_sequence_methods():
-- 
2.43.0


From c0dd8f095f1dc2ef5e939db84841af01378e6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 059/123] fix: add_inplace_numeric_operator accepts a CppClass,
 and each overload once

---
 pybindgen/cppclass.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9ed880a..95e9f8c 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -907,6 +907,8 @@ class CppClass(object):
             self.inplace_numeric_operators[operator] = l
         if right is None:
             right = self
+        elif isinstance(right, CppClass):
+            pass
         else:
             if isinstance(right, string_types):
                 right = utils.param(right, 'right')
@@ -914,8 +916,9 @@ class CppClass(object):
                 right = utils.eval_param(right, None)
             except utils.SkipWrapper:
                 return
-        if right not in l:
-            l.append((self, self, right))
+        op = (self, self, right)
+        if op not in l:
+            l.append(op)
 
     def add_unary_numeric_operator(self, operator, result_cppclass=None, left_cppclass=None):
         """
-- 
2.43.0


From 4a5109155dadb6ed596bc6e547eb83b91dc4b446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 060/123] fix: a copy has the instance attributes of the
 original

copy.copy() of a class that allows subclassing dropped the attributes set
from Python, and the objects it has to keep alive with them.
---
 pybindgen/cppclass.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 95e9f8c..a793d8f 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2343,6 +2343,27 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         self.write_register_wrapper(code_block, py_copy)
         self.write_post_instance_creation_code(code_block, "%s->obj" % py_copy, "*self->obj", construct_name)
 
+        if self.allow_subclassing:
+            # like every shallow copy, it has the same attributes; but
+            # the list of wards is changed in place, so it needs its own
+            code_block.write_code('''
+if (self->inst_dict) {
+    PyObject *py_wards;
+    %(COPY)s->inst_dict = PyDict_Copy(self->inst_dict);
+    if (%(COPY)s->inst_dict && (py_wards = PyDict_GetItemString(%(COPY)s->inst_dict, "__wards__")) && PyList_Check(py_wards)) {
+        py_wards = PyList_GetSlice(py_wards, 0, PyList_GET_SIZE(py_wards));
+        if (!py_wards || PyDict_SetItemString(%(COPY)s->inst_dict, "__wards__", py_wards) < 0) {
+            Py_CLEAR(%(COPY)s->inst_dict);
+        }
+        Py_XDECREF(py_wards);
+    }
+    if (!%(COPY)s->inst_dict) {
+        Py_DECREF(%(COPY)s);
+        return NULL;
+    }
+}
+''' % dict(COPY=py_copy))
+
         code_block.write_code("return (PyObject*) %s;" % py_copy)
 
         declarations.get_code_sink().flush_to(code_sink)
-- 
2.43.0


From 22c90013ee7434bf798506b5e3106bc99f7eb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 061/123] fix: enum values of any underlying type are passed
 without truncation or memory corruption

---
 pybindgen/enum.py | 90 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 90 insertions(+)

diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index 960da58..6cdeb38 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -81,30 +81,120 @@ class Enum(object):
         ## Register type handlers for the enum type
         assert self.name
         assert self.full_name
+        ## The value is exchanged with Python by means of a long long
+        ## variable, since an enum can have any integer type as
+        ## underlying type.
+        def range_error(c_value):
+            return (("(long long) (%(type)s) %(value)s != %(value)s"
+                     " || (%(value)s < 0 && sizeof (%(type)s) == sizeof (long long)"
+                     " && !((%(type)s) %(value)s < (%(type)s) 0))")
+                    % dict(type=self.full_name, value=c_value),
+                    'PyErr_SetString(PyExc_OverflowError, "Out of range");')
+
+        def parse_value(wrapper, code_block, name, target, default_value=None):
+            c_value = wrapper.declarations.declare_variable(
+                "long long", name + "_value",
+                "(long long) (%s)" % default_value if default_value else None)
+            wrapper.parse_params.add_parameter('L', ['&'+c_value], name, optional=bool(default_value))
+            code_block.write_error_check(*range_error(c_value))
+            code_block.write_code("%s = (%s) %s;" % (target, self.full_name, c_value))
+
+        def build_value(wrapper, value, prepend=False):
+            wrapper.build_params.add_parameter('L', ["(long long) %s" % value], prepend=prepend)
+
         class ThisEnumParameter(inttype.IntParam):
             CTYPES = []
             full_type_name = self.full_name
             def __init__(self, ctype, name, *args, **kwargs):
                 super(ThisEnumParameter, self).__init__(self.full_type_name, name, *args, **kwargs)
 
+            def convert_c_to_python(self, wrapper):
+                build_value(wrapper, self.value)
+
+            def convert_python_to_c(self, wrapper):
+                name = wrapper.declarations.declare_variable(self.full_type_name, self.name)
+                parse_value(wrapper, wrapper.before_call, self.name, name, self.default_value)
+                wrapper.call_params.append(name)
+
         class ThisEnumReturn(inttype.IntReturn):
             CTYPES = []
             full_type_name = self.full_name
             def __init__(self, ctype, *args, **kwargs):
                 super(ThisEnumReturn, self).__init__(self.full_type_name, *args, **kwargs)
 
+            def get_c_error_return(self):
+                return "return (%s) 0;" % self.full_type_name
+
+            def convert_python_to_c(self, wrapper):
+                c_value = wrapper.declarations.declare_variable("long long", "tmp_value")
+                wrapper.parse_params.add_parameter('L', ['&'+c_value], prepend=True)
+                wrapper.after_call.write_error_check(*range_error(c_value))
+                wrapper.after_call.write_code("%s = (%s) %s;" % (self.value, self.full_type_name, c_value))
+
+            def convert_c_to_python(self, wrapper):
+                build_value(wrapper, self.value, prepend=True)
+
         class ThisEnumRefParameter(inttype.IntRefParam):
             CTYPES = []
             full_type_name = self.full_name + " &"
             def __init__(self, ctype, name, *args, **kwargs):
                 super(ThisEnumRefParameter, self).__init__(self.full_type_name, name, *args, **kwargs)
 
+            def convert_c_to_python(self, wrapper):
+                if self.direction & self.DIRECTION_IN:
+                    build_value(wrapper, self.value)
+                if self.direction & self.DIRECTION_OUT:
+                    parse_value(wrapper, wrapper.after_call, self.name, self.value)
+
+            def convert_python_to_c(self, wrapper):
+                name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
+                wrapper.call_params.append(name)
+                if self.direction & self.DIRECTION_IN:
+                    parse_value(wrapper, wrapper.before_call, self.name, name, self.default_value)
+                if self.direction & self.DIRECTION_OUT:
+                    build_value(wrapper, name)
+
         class ThisEnumPtrParameter(inttype.IntPtrParam):
             CTYPES = []
             full_type_name = self.full_name + " *"
             def __init__(self, ctype, name, *args, **kwargs):
                 super(ThisEnumPtrParameter, self).__init__(self.full_type_name, name, *args, **kwargs)
 
+            def convert_c_to_python(self, wrapper):
+                if self.direction & self.DIRECTION_IN:
+                    build_value(wrapper, '*' + self.value)
+                if self.direction & self.DIRECTION_OUT:
+                    parse_value(wrapper, wrapper.after_call, self.name, '*' + self.value)
+
+            def convert_python_to_c(self, wrapper):
+                name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
+                if not (self.default_value in ['NULL', '0'] and self.direction & self.DIRECTION_IN):
+                    wrapper.call_params.append('&' + name)
+                    if self.direction & self.DIRECTION_IN:
+                        parse_value(wrapper, wrapper.before_call, self.name, name)
+                    if self.direction & self.DIRECTION_OUT:
+                        build_value(wrapper, name)
+                    return
+                ## NULL is passed if there is no argument, and None returned
+                name_obj = wrapper.declarations.declare_variable("PyObject*", self.name + "_obj", "NULL")
+                c_value = wrapper.declarations.declare_variable("long long", self.name + "_value", "0")
+                wrapper.call_params.append("(%s ? &%s : NULL)" % (name_obj, name))
+                wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
+                wrapper.before_call.write_error_check(
+                    '%s && !PyArg_Parse(%s, (char *) "L", &%s)' % (name_obj, name_obj, c_value))
+                wrapper.before_call.write_error_check(*range_error(c_value))
+                wrapper.before_call.write_code("%s = (%s) %s;" % (name, self.type_traits.target, c_value))
+                if self.direction & self.DIRECTION_OUT:
+                    wrapper.after_call.write_code(
+                        "if (%(name_obj)s) {\n"
+                        "    %(name_obj)s = PyLong_FromLongLong((long long) %(name)s);\n"
+                        "} else {\n"
+                        "    %(name_obj)s = Py_None;\n"
+                        "    Py_INCREF(%(name_obj)s);\n"
+                        "}\n"
+                        % vars())
+                    wrapper.build_params.add_parameter("N", [name_obj])
+
         self.ThisEnumParameter = ThisEnumParameter
         self.ThisEnumReturn = ThisEnumReturn
         self.ThisEnumRefParameter = ThisEnumRefParameter
-- 
2.43.0


From 0a6009f5a46892289f70b7305526c881acc17c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 062/123] fix: names of scoped enums compile and values_prefix
 applies to enums nested in classes

---
 pybindgen/enum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index 6cdeb38..0b2def1 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -241,11 +241,11 @@ class Enum(object):
                 if isinstance(value, tuple):
                     name, real_value = value
                     module.after_init.write_code(
-                        "PyModule_AddIntConstant(m, (char *) \"%s\", %s);" % (name, real_value))
+                        "PyModule_AddIntConstant(m, (char *) \"%s\", (long) (%s));" % (name, real_value))
                 else:
                     module.after_init.write_code(
-                        "PyModule_AddIntConstant(m, (char *) \"%s\", %s);"
-                        % (value, '::'.join(namespace + [self.values_prefix + value])))
+                        "PyModule_AddIntConstant(m, (char *) \"%s\", (long) (%s));"
+                        % (value, '::'.join(namespace + [(self.values_prefix or '') + value])))
         else:
             module.after_init.write_code("{")
             module.after_init.indent()
@@ -255,10 +255,10 @@ class Enum(object):
                     value_name, value_str = value
                 else:
                     value_name = value
-                    value_str = "%s::%s" % (self.outer_class.full_name, value)
+                    value_str = "%s::%s%s" % (self.outer_class.full_name, self.values_prefix or '', value)
                 module.after_init.write_code(
                     ' // %s\n'
-                    'tmp_value = PyLong_FromLong(%s);\n'
+                    'tmp_value = PyLong_FromLong((long) (%s));\n'
                     'PyDict_SetItemString((PyObject*) %s.tp_dict, \"%s\", tmp_value);\n'
                     'Py_DECREF(tmp_value);'
                     % (
-- 
2.43.0


From 04c6116fa6b4a1e59362c18c7b97277f11443520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 063/123] fix: an enum that C++ promotes to int has the values
 of an int in Python

---
 pybindgen/enum.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index 0b2def1..4c8e1bd 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -83,12 +83,18 @@ class Enum(object):
         assert self.full_name
         ## The value is exchanged with Python by means of a long long
         ## variable, since an enum can have any integer type as
-        ## underlying type.
+        ## underlying type.  An enum that is promoted to int has the
+        ## values of an int, even if its underlying type is unsigned.
+        is_signed = "((%(type)s) -1 < (%(type)s) 0)" % dict(type=self.full_name)
+
+        def to_long_long(value):
+            return ("(%(signed)s && sizeof (%(type)s) == sizeof (int)"
+                    " ? (long long) (int) %(value)s : (long long) %(value)s)"
+                    % dict(signed=is_signed, type=self.full_name, value=value))
+
         def range_error(c_value):
-            return (("(long long) (%(type)s) %(value)s != %(value)s"
-                     " || (%(value)s < 0 && sizeof (%(type)s) == sizeof (long long)"
-                     " && !((%(type)s) %(value)s < (%(type)s) 0))")
-                    % dict(type=self.full_name, value=c_value),
+            return ("%s != %s || (%s < 0 && !%s)"
+                    % (to_long_long("(%s) %s" % (self.full_name, c_value)), c_value, c_value, is_signed),
                     'PyErr_SetString(PyExc_OverflowError, "Out of range");')
 
         def parse_value(wrapper, code_block, name, target, default_value=None):
@@ -100,7 +106,7 @@ class Enum(object):
             code_block.write_code("%s = (%s) %s;" % (target, self.full_name, c_value))
 
         def build_value(wrapper, value, prepend=False):
-            wrapper.build_params.add_parameter('L', ["(long long) %s" % value], prepend=prepend)
+            wrapper.build_params.add_parameter('L', [to_long_long(value)], prepend=prepend)
 
         class ThisEnumParameter(inttype.IntParam):
             CTYPES = []
@@ -187,12 +193,12 @@ class Enum(object):
                 if self.direction & self.DIRECTION_OUT:
                     wrapper.after_call.write_code(
                         "if (%(name_obj)s) {\n"
-                        "    %(name_obj)s = PyLong_FromLongLong((long long) %(name)s);\n"
+                        "    %(name_obj)s = PyLong_FromLongLong(%(value)s);\n"
                         "} else {\n"
                         "    %(name_obj)s = Py_None;\n"
                         "    Py_INCREF(%(name_obj)s);\n"
                         "}\n"
-                        % vars())
+                        % dict(name_obj=name_obj, value=to_long_long(name)))
                     wrapper.build_params.add_parameter("N", [name_obj])
 
         self.ThisEnumParameter = ThisEnumParameter
-- 
2.43.0


From 70e67fca683e006719dc086319b15aed6cfef956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 064/123] fix: a Python subclass can override virtual methods
 that its C++ class only inherits

---
 pybindgen/cppclass.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index a793d8f..abe8395 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -386,6 +386,9 @@ class CppHelperClass(object):
             implemented_constructor_signatures = []
             for cons in self.class_.constructors:
 
+                if cons.visibility == 'private':
+                    continue
+
                 ## filter out duplicated constructors
                 signature = [param.ctype for param in cons.parameters]
                 if signature in implemented_constructor_signatures:
@@ -1803,6 +1806,16 @@ public:
         self.instance_attributes.add_attribute(name, getter_wrapper, setter_wrapper, custom_name)
 
 
+    def _inherits_virtual_methods(self):
+        "Whether some parent class has virtual methods"
+        mro = self.get_mro()
+        next(mro) # skip 'self'
+        for cls in mro:
+            for method in cls.get_all_methods():
+                if method.is_virtual:
+                    return True
+        return False
+
     def _inherit_helper_class_parent_virtuals(self):
         """
         Given a class containing a helper class, add all virtual
@@ -1871,6 +1884,11 @@ typedef struct {
 
         code_sink.writeln()
 
+        if self.helper_class is None and not self.import_from_module and not self.incomplete_type \
+                and self._inherits_virtual_methods():
+            ## the inherited virtual methods can be overridden, too
+            self.get_helper_class()
+
         if self.helper_class is not None:
             self._inherit_helper_class_parent_virtuals()
             for hook in self._get_all_helper_class_hooks():
-- 
2.43.0


From cba2864884c9ee4eba9086e2ebe0787950cd1918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 065/123] fix: functions of the same name added as methods of
 different classes

---
 pybindgen/cppclass.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index abe8395..96eb090 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1462,6 +1462,7 @@ public:
                 (self.full_name, method.parameters[0].cpp_class.full_name)
             method.parameters[0].take_value_from_python_self = True
             method.module = self.module
+            method.wrapper_base_name = "_wrap_%s_%s" % (self.pystruct, method.mangled_name)
             method.is_virtual = False
             method.is_pure_virtual = False
             method.self_parameter_pystruct = self.pystruct
-- 
2.43.0


From f242fb989adb9e0dfb6273ef001b1e4e49ad8587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 066/123] fix: the helper of a Python subclass may be destroyed
 by a thread that does not hold the lock

---
 pybindgen/cppclass.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 96eb090..e9386d5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -418,7 +418,18 @@ void set_pyobj(PyObject *pyobj)
         ## write a destructor
         code_sink.writeln("virtual ~%s()\n{" % self.name)
         code_sink.indent()
+        ## the object may be destroyed by any thread, not necessarily holding the Python GIL
+        code_sink.writeln("if (m_pyself && Py_IsInitialized()) {")
+        code_sink.indent()
+        code_sink.writeln("PyGILState_STATE __py_gil_state = "
+                          "(PyEval_ThreadsInitialized() ? PyGILState_Ensure() : (PyGILState_STATE) 0);")
         code_sink.writeln("Py_CLEAR(m_pyself);")
+        code_sink.writeln("if (PyEval_ThreadsInitialized())")
+        code_sink.indent()
+        code_sink.writeln("PyGILState_Release(__py_gil_state);")
+        code_sink.unindent()
+        code_sink.unindent()
+        code_sink.writeln("}")
         code_sink.unindent()
         code_sink.writeln("}\n")
 
-- 
2.43.0


From f86d5d566f4b11a2f7135761d0cc30d751fd48bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 067/123] fix: methods inherited from several base classes keep
 unblock_threads, throw and the custodians

---
 pybindgen/cppmethod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 8561948..6575e0b 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -220,7 +220,11 @@ class CppMethod(ForwardWrapperBase):
                          is_pure_virtual=self.is_pure_virtual,
                          is_const=self.is_const,
                          visibility=self.visibility,
-                         custom_name=self.custom_name)
+                         custom_name=self.custom_name,
+                         unblock_threads=self.unblock_threads,
+                         deprecated=self.deprecated,
+                         throw=self.throw)
+        meth.custodians_and_wards = list(self.custodians_and_wards)
         meth._class = self._class
         meth.docstring = self.docstring
         meth.wrapper_base_name = self.wrapper_base_name
-- 
2.43.0


From 615740320e33ccff1191f12f5194e1f3a2d6b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 068/123] fix: unblocked calls hold the lock again before they
 use Python

---
 pybindgen/cppmethod.py         | 62 +++++++++++++++++++++-------------
 pybindgen/typehandlers/base.py | 19 ++++++++---
 2 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 6575e0b..256bf43 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -260,22 +260,7 @@ class CppMethod(ForwardWrapperBase):
             else:
                 retval_assign = 'retval = '
 
-        if class_.helper_class is not None and self.is_virtual \
-                and not settings._get_deprecated_virtuals():
-            ## the object may be an instance of the helper class of a derived class
-            helper = self.before_call.declare_variable(type_="PyBindGenPythonHelperBase *",
-                                                       name="helper_class",
-                                                       initializer=(
-                    "dynamic_cast<PyBindGenPythonHelperBase*> (self->obj)"))
-            if self.is_pure_virtual:
-                ## there is nothing to call but the Python method, which called us or does not exist
-                self.before_call.write_error_check(
-                    "%s != NULL" % helper,
-                    'PyErr_SetString(PyExc_NotImplementedError, "%s.%s is not implemented");'
-                    % (class_.name, self.method_name))
-                helper = None
-        else:
-            helper = None
+        helper = self._helper_variable
 
         if self.is_static:
             method = '%s::%s%s' % (class_.full_name, self.method_name, template_params)
@@ -311,10 +296,33 @@ class CppMethod(ForwardWrapperBase):
         if self.throw:
             self.write_catch_blocks(self.throw, 'return NULL;')
 
+    def _write_helper_check(self):
+        """find out whether the object is an instance of a helper class,
+        and whether the method can be called if it is"""
+        self._helper_variable = None
+        class_ = self.class_
+        if class_ is None or class_.helper_class is None or not self.is_virtual \
+                or settings._get_deprecated_virtuals():
+            return
+        ## the object may be an instance of the helper class of a derived class
+        helper = self.before_call.declare_variable(type_="PyBindGenPythonHelperBase *",
+                                                   name="helper_class",
+                                                   initializer=(
+                "dynamic_cast<PyBindGenPythonHelperBase*> (self->obj)"))
+        if self.is_pure_virtual:
+            ## there is nothing to call but the Python method, which called us or does not exist
+            self.before_call.write_error_check(
+                "%s != NULL" % helper,
+                'PyErr_SetString(PyExc_NotImplementedError, "%s.%s is not implemented");'
+                % (class_.name, self.method_name))
+        else:
+            self._helper_variable = helper
+
     def _before_call_hook(self):
         "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
         from . import cppclass
         cppclass.implement_parameter_custodians_precall(self)
+        self._write_helper_check()
 
     def _before_return_hook(self):
         """hook that post-processes parameters and check for custodian=<n>
@@ -657,6 +665,7 @@ class CppConstructor(ForwardWrapperBase):
         #assert isinstance(class_, CppClass)
         if class_.helper_class is None:
             class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
+            self.write_restore_thread()
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
             self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
             class_.write_register_wrapper(self.before_call, "self")
@@ -669,6 +678,7 @@ class CppConstructor(ForwardWrapperBase):
 
             class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params),
                                          class_.helper_class.name)
+            self.write_restore_thread()
             self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
             self.before_call.write_code('((%s*) self->obj)->set_pyobj((PyObject *)self);'
                                         % class_.helper_class.name)
@@ -686,11 +696,13 @@ class CppConstructor(ForwardWrapperBase):
                     raise CodeGenerationError("private/protected constructor")
                 class_.get_construct_name()
             except CodeGenerationError:
+                self.write_restore_thread()
                 self.before_call.write_code('PyErr_SetString(PyExc_TypeError, "class \'%s\' '
                                             'cannot be constructed");' % class_.name)
                 self.before_call.write_code('return -1;')
             else:
                 class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
+                self.write_restore_thread()
                 self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
                 class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
                 class_.write_register_wrapper(self.before_call, "self")
@@ -804,7 +816,7 @@ class CppFunctionAsConstructor(CppConstructor):
             unblock_threads = settings.unblock_threads
 
         parameters = [utils.eval_param(param, self) for param in parameters]
-        super(CppFunctionAsConstructor, self).__init__(parameters)
+        super(CppFunctionAsConstructor, self).__init__(parameters, unblock_threads=unblock_threads)
         self.c_function_name = c_function_name
         self.function_return_value = return_value
 
@@ -817,6 +829,7 @@ class CppFunctionAsConstructor(CppConstructor):
         ## FIXME: check caller_owns_return in self.function_return_value
         self.before_call.write_code("self->obj = %s(%s);" %
                                     (self.c_function_name, ", ".join(self.call_params)))
+        self.write_restore_thread()
         self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
         class_.write_register_wrapper(self.before_call, "self")
 
@@ -881,6 +894,8 @@ class CppVirtualMethodParentCaller(CppMethod):
     """
 
     def __init__(self, method, unblock_threads=None):
+        if unblock_threads is None:
+            unblock_threads = method.unblock_threads
         super(CppVirtualMethodParentCaller, self).__init__(
             method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads,
             throw=method.throw)
@@ -935,19 +950,20 @@ class CppVirtualMethodParentCaller(CppMethod):
                                                           ', '.join([param.name for param in self.parameters])))
 
 
-    def generate_call(self, class_=None):
-        "virtual method implementation; do not call"
-        class_ = self.class_
-        helper = self.before_call.declare_variable(
+    def _write_helper_check(self):
+        self._helper_variable = self.before_call.declare_variable(
             type_=('%s*' % self._helper_class.name),
             name='helper',
             initializer=("dynamic_cast< %s* >(self->obj)" %  self._helper_class.name))
-        method = '%s->%s__parent_caller' % (helper, self.method_name)
         self.before_call.write_error_check(
-            "%s == NULL" % helper,
+            "%s == NULL" % self._helper_variable,
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
 
+    def generate_call(self, class_=None):
+        "virtual method implementation; do not call"
+        method = '%s->%s__parent_caller' % (self._helper_variable, self.method_name)
+
         if self.throw:
             self.before_call.write_code('try\n{')
             self.before_call.indent()
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 10ed420..adb2289 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -873,6 +873,20 @@ class ForwardWrapperBase(object):
         code_sink.writeln('}')
 
 
+    def write_restore_thread(self):
+        """
+        Generate the code, to go after the C++ call, that gets back the
+        Python lock that was released before it, if it was.  Needed before
+        any code that uses Python and is written by generate_call();
+        otherwise the lock is taken back after generate_call().
+        """
+        if self.unblock_threads:
+            self.before_call.write_code(
+                "if (%(state)s) {\n"
+                "     PyEval_RestoreThread(%(state)s);\n"
+                "     %(state)s = NULL;\n"
+                "}" % dict(state=self.py_thread_state))
+
     def write_catch_blocks(self, exceptions, error_return):
         """
         Generate the code, to go after the C++ call inside a try block, that
@@ -885,10 +899,7 @@ class ForwardWrapperBase(object):
             self.before_call.unindent()
             self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
             self.before_call.indent()
-            if self.unblock_threads:
-                self.before_call.write_code(
-                    "if (%s)\n"
-                    "     PyEval_RestoreThread(%s);" % (self.py_thread_state, self.py_thread_state))
+            self.write_restore_thread()
             self.before_call.write_cleanup()
             exc.write_convert_to_python(self.before_call, 'exc')
             self.before_call.write_code(error_return)
-- 
2.43.0


From 44efe8994f03d0bef0077d593c8f732f0277b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 069/123] fix: a type of one scope or module is not taken for
 the type of the same name in another

---
 pybindgen/container.py              | 40 +++++---------
 pybindgen/cppclass.py               | 85 ++++++++---------------------
 pybindgen/enum.py                   | 27 ++-------
 pybindgen/module.py                 |  2 +-
 pybindgen/typehandlers/base.py      | 26 +++++++++
 pybindgen/typehandlers/smart_ptr.py | 20 ++-----
 6 files changed, 74 insertions(+), 126 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 6ac8d16..1199972 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -158,30 +158,21 @@ class Container(object):
                 CTYPES = []
                 container_type = self
             self.ThisContainerParameter = ThisContainerParameter
-            try:
-                param_type_matcher.register(name, self.ThisContainerParameter)
-            except ValueError:
-                pass
+            param_type_matcher.register_declared(name, self.ThisContainerParameter, self)
 
             class ThisContainerRefParameter(ContainerRefParameter):
                 """Register this C++ container as pass-by-value parameter"""
                 CTYPES = []
                 container_type = self
             self.ThisContainerRefParameter = ThisContainerRefParameter
-            try:
-                param_type_matcher.register(name + '&', self.ThisContainerRefParameter)
-            except ValueError:
-                pass
+            param_type_matcher.register_declared(name + '&', self.ThisContainerRefParameter, self)
 
             class ThisContainerPtrParameter(ContainerPtrParameter):
                 """Register this C++ container as pass-by-ptr parameter"""
                 CTYPES = []
                 container_type = self
             self.ThisContainerPtrParameter = ThisContainerPtrParameter
-            try:
-                param_type_matcher.register(name + '*', self.ThisContainerPtrParameter)
-            except ValueError:
-                pass
+            param_type_matcher.register_declared(name + '*', self.ThisContainerPtrParameter, self)
 
             class ThisContainerReturn(ContainerReturnValue):
                 """Register this C++ container as value return"""
@@ -189,11 +180,8 @@ class Container(object):
                 container_type = self
             self.ThisContainerReturn = ThisContainerReturn
             self.ThisContainerRefReturn = ThisContainerReturn
-            try:
-                return_type_matcher.register(name, self.ThisContainerReturn)
-                return_type_matcher.register(name + '&', self.ThisContainerRefReturn)
-            except ValueError:
-                pass
+            return_type_matcher.register_declared(name, self.ThisContainerReturn, self)
+            return_type_matcher.register_declared(name + '&', self.ThisContainerRefReturn, self)
 
     def __repr__(self):
         return "<pybindgen.Container %r>" % self.full_name
@@ -263,26 +251,24 @@ class Container(object):
             self.ThisContainerReturn(self.full_name))
 
 
-    def register_alias(self, alias):
+    def register_alias(self, alias, definitive=False):
         """Re-register the class with another base name, in addition to any
         registrations that might have already been done."""
 
         self.module.register_type(None, alias, self)
 
         self.ThisContainerParameter.CTYPES.append(alias)
-        try:
-            param_type_matcher.register(alias, self.ThisContainerParameter)
-        except ValueError: pass
+        param_type_matcher.register_declared(alias, self.ThisContainerParameter, self, definitive)
 
         self.ThisContainerRefParameter.CTYPES.append(alias+'&')
-        try:
-            param_type_matcher.register(alias+'&', self.ThisContainerRefParameter)
-        except ValueError: pass
+        param_type_matcher.register_declared(alias+'&', self.ThisContainerRefParameter, self, definitive)
+
+        self.ThisContainerPtrParameter.CTYPES.append(alias+'*')
+        param_type_matcher.register_declared(alias+'*', self.ThisContainerPtrParameter, self, definitive)
 
         self.ThisContainerReturn.CTYPES.append(alias)
-        try:
-            return_type_matcher.register(alias, self.ThisContainerReturn)
-        except ValueError: pass
+        return_type_matcher.register_declared(alias, self.ThisContainerReturn, self, definitive)
+        return_type_matcher.register_declared(alias+'&', self.ThisContainerRefReturn, self, definitive)
 
 
     def generate_forward_declarations(self, code_sink, module):
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index e9386d5..bbbf9c5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -119,31 +119,21 @@ class MemoryPolicy(object):
             CTYPES = []
             cpp_class = cls
         cls.ThisClassPtrParameter = ThisClassPtrParameter
-        try:
-            param_type_matcher.register(name+'*', cls.ThisClassPtrParameter)
-        except ValueError:
-            pass
+        param_type_matcher.register_declared(name+'*', cls.ThisClassPtrParameter, cls)
 
         class ThisClassPtrReturn(CppClassPtrReturnValue):
             """Register this C++ class as pointer return"""
             CTYPES = []
             cpp_class = cls
         cls.ThisClassPtrReturn = ThisClassPtrReturn
-        try:
-            return_type_matcher.register(name+'*', cls.ThisClassPtrReturn)
-        except ValueError:
-            pass
+        return_type_matcher.register_declared(name+'*', cls.ThisClassPtrReturn, cls)
 
-    def register_ptr_alias_parameter_and_return(self, cls, alias):
+    def register_ptr_alias_parameter_and_return(self, cls, alias, definitive=False):
         cls.ThisClassPtrParameter.CTYPES.append(alias+'*')
-        try:
-            param_type_matcher.register(alias+'*', cls.ThisClassPtrParameter)
-        except ValueError: pass
+        param_type_matcher.register_declared(alias+'*', cls.ThisClassPtrParameter, cls, definitive)
 
         cls.ThisClassPtrReturn.CTYPES.append(alias+'*')
-        try:
-            return_type_matcher.register(alias+'*', cls.ThisClassPtrReturn)
-        except ValueError: pass
+        return_type_matcher.register_declared(alias+'*', cls.ThisClassPtrReturn, cls, definitive)
 
 
 class ReferenceCountingPolicy(MemoryPolicy):
@@ -765,10 +755,7 @@ class CppClass(object):
                 CTYPES = []
                 cpp_class = self
             self.ThisClassParameter = ThisClassParameter
-            try:
-                param_type_matcher.register(name, self.ThisClassParameter)
-            except ValueError:
-                pass
+            param_type_matcher.register_declared(name, self.ThisClassParameter, self)
 
 
             class ThisClassRefParameter(CppClassRefParameter):
@@ -776,10 +763,7 @@ class CppClass(object):
                 CTYPES = []
                 cpp_class = self
             self.ThisClassRefParameter = ThisClassRefParameter
-            try:
-                param_type_matcher.register(name+'&', self.ThisClassRefParameter)
-            except ValueError:
-                pass
+            param_type_matcher.register_declared(name+'&', self.ThisClassRefParameter, self)
 
             class ThisClassReturn(CppClassReturnValue):
                 """Register this C++ class as value return"""
@@ -787,11 +771,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassReturn = ThisClassReturn
             self.ThisClassRefReturn = ThisClassReturn
-            try:
-                return_type_matcher.register(name, self.ThisClassReturn)
-                return_type_matcher.register(name, self.ThisClassRefReturn)
-            except ValueError:
-                pass
+            return_type_matcher.register_declared(name, self.ThisClassReturn, self)
 
             if self.memory_policy is not None:
                 self.memory_policy.register_ptr_parameter_and_return(self, name)
@@ -801,20 +781,14 @@ class CppClass(object):
                     CTYPES = []
                     cpp_class = self
                 self.ThisClassPtrParameter = ThisClassPtrParameter
-                try:
-                    param_type_matcher.register(name+'*', self.ThisClassPtrParameter)
-                except ValueError:
-                    pass
+                param_type_matcher.register_declared(name+'*', self.ThisClassPtrParameter, self)
 
                 class ThisClassPtrReturn(CppClassPtrReturnValue):
                     """Register this C++ class as pointer return"""
                     CTYPES = []
                     cpp_class = self
                 self.ThisClassPtrReturn = ThisClassPtrReturn
-                try:
-                    return_type_matcher.register(name+'*', self.ThisClassPtrReturn)
-                except ValueError:
-                    pass
+                return_type_matcher.register_declared(name+'*', self.ThisClassPtrReturn, self)
 
 
             class ThisClassRefReturn(CppClassRefReturnValue):
@@ -822,10 +796,7 @@ class CppClass(object):
                 CTYPES = []
                 cpp_class = self
             self.ThisClassRefReturn = ThisClassRefReturn
-            try:
-                return_type_matcher.register(name+'&', self.ThisClassRefReturn)
-            except ValueError:
-                pass
+            return_type_matcher.register_declared(name+'&', self.ThisClassRefReturn, self)
 
     def __repr__(self):
         return "<pybindgen.CppClass %r>" % self.full_name
@@ -1225,51 +1196,43 @@ class CppClass(object):
         self.static_attributes.cname = "%s__getsets" % self.metaclass_name
 
         ## re-register the class type handlers, now with class full name
-        self.register_alias(self.full_name)
+        self.register_alias(self.full_name, definitive=True)
+        if self.name != self.full_name:
+            self._register_type_handlers(self.name, definitive=False)
 
         if self.get_type_narrowing_root() is self:
             self.typeid_map_name = "%s__typeid_map" % self.pystruct
         else:
             self.typeid_map_name = None
 
-    def register_alias(self, alias):
+    def register_alias(self, alias, definitive=False):
         """Re-register the class with another base name, in addition to any
         registrations that might have already been done."""
 
         self.module.register_type(None, alias, self)
+        self._register_type_handlers(alias, definitive)
 
+    def _register_type_handlers(self, alias, definitive):
         self.ThisClassParameter.CTYPES.append(alias)
-        try:
-            param_type_matcher.register(alias, self.ThisClassParameter)
-        except ValueError: pass
+        param_type_matcher.register_declared(alias, self.ThisClassParameter, self, definitive)
 
         self.ThisClassRefParameter.CTYPES.append(alias+'&')
-        try:
-            param_type_matcher.register(alias+'&', self.ThisClassRefParameter)
-        except ValueError: pass
+        param_type_matcher.register_declared(alias+'&', self.ThisClassRefParameter, self, definitive)
 
         self.ThisClassReturn.CTYPES.append(alias)
-        try:
-            return_type_matcher.register(alias, self.ThisClassReturn)
-        except ValueError: pass
+        return_type_matcher.register_declared(alias, self.ThisClassReturn, self, definitive)
 
         if self.memory_policy is not None:
-            self.memory_policy.register_ptr_alias_parameter_and_return(self, alias)
+            self.memory_policy.register_ptr_alias_parameter_and_return(self, alias, definitive)
         else:
             self.ThisClassPtrParameter.CTYPES.append(alias+'*')
-            try:
-                param_type_matcher.register(alias+'*', self.ThisClassPtrParameter)
-            except ValueError: pass
+            param_type_matcher.register_declared(alias+'*', self.ThisClassPtrParameter, self, definitive)
 
             self.ThisClassPtrReturn.CTYPES.append(alias+'*')
-            try:
-                return_type_matcher.register(alias+'*', self.ThisClassPtrReturn)
-            except ValueError: pass
+            return_type_matcher.register_declared(alias+'*', self.ThisClassPtrReturn, self, definitive)
 
         self.ThisClassRefReturn.CTYPES.append(alias)
-        try:
-            return_type_matcher.register(alias+'&', self.ThisClassRefReturn)
-        except ValueError: pass
+        return_type_matcher.register_declared(alias+'&', self.ThisClassRefReturn, self, definitive)
 
 
     def get_module(self):
diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index 4c8e1bd..1c1cee4 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -206,28 +206,11 @@ class Enum(object):
         self.ThisEnumRefParameter = ThisEnumRefParameter
         self.ThisEnumPtrParameter = ThisEnumPtrParameter
 
-        param_type_matcher.register(self.full_name, self.ThisEnumParameter)
-        return_type_matcher.register(self.full_name, self.ThisEnumReturn)
-        param_type_matcher.register(self.full_name + ' &', self.ThisEnumRefParameter)
-        param_type_matcher.register(self.full_name + ' *', self.ThisEnumPtrParameter)
-
-        if self.name != self.full_name:
-            try:
-                param_type_matcher.register(self.name, self.ThisEnumParameter)
-            except ValueError:
-                pass
-            try:
-                return_type_matcher.register(self.name, self.ThisEnumReturn)
-            except ValueError:
-                pass
-            try:
-                param_type_matcher.register(self.name+' &', self.ThisEnumRefParameter)
-            except ValueError:
-                pass
-            try:
-                param_type_matcher.register(self.name+' *', self.ThisEnumPtrParameter)
-            except ValueError:
-                pass
+        for name, definitive in [(self.full_name, True), (self.name, False)]:
+            param_type_matcher.register_declared(name, self.ThisEnumParameter, self, definitive)
+            return_type_matcher.register_declared(name, self.ThisEnumReturn, self, definitive)
+            param_type_matcher.register_declared(name + ' &', self.ThisEnumRefParameter, self, definitive)
+            param_type_matcher.register_declared(name + ' *', self.ThisEnumPtrParameter, self, definitive)
 
 
     module = property(get_module, set_module)
diff --git a/pybindgen/module.py b/pybindgen/module.py
index 42a0e4b..95f70a6 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -895,7 +895,7 @@ __attribute__ ((visibility("default")))
         self.register_type(alias, alias, wrapper)
         wrapper.register_alias(alias)
         full_name = '::'.join(self.get_namespace_path() + [alias])
-        wrapper.register_alias(full_name)
+        wrapper.register_alias(full_name, definitive=True)
 
 
 class Module(ModuleBase):
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index adb2289..6776473 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -1406,6 +1406,7 @@ class TypeMatcher(object):
         """Constructor"""
         self._types = {}
         self._transformations = []
+        self._declared = {} # C type name => wrapper of the type that was declared in a module
         self._type_aliases = {}
         self._type_aliases_rev = {}
 
@@ -1427,6 +1428,31 @@ class TypeMatcher(object):
             raise ValueError("return type %s already registered" % (name,))
         self._types[name] = type_handler
 
+    def register_declared(self, name, type_handler, wrapper, definitive=False):
+        """Register a new handler class for a C type declared in a module
+
+        :param name: C type name
+
+        :param type_handler: class to handle this C type
+
+        :param wrapper: wrapper object of the C type (class, enum or container)
+
+        :param definitive: True if this is the full name of the C
+           type.  It takes precedence over types that were declared
+           before, in other scopes, and can be found by the same name.
+        """
+        name = ctypeparser.normalize_type_string(name)
+        if name in self._types:
+            if name not in self._declared:
+                return # a type that is always known
+            if not definitive:
+                module, other_module = wrapper.module, self._declared[name].module
+                if module is None or (other_module is not None and
+                                      module.get_root() is other_module.get_root()):
+                    return
+        self._types[name] = type_handler
+        self._declared[name] = wrapper
+
     def _raw_lookup_with_alias_support(self, name):
         already_tried = []
         return self._raw_lookup_with_alias_support_recursive(name, already_tried)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 3e3f307..f704551 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -45,32 +45,22 @@ class BoostSharedPtr(SmartPointerPolicy):
             CTYPES = []
             cpp_class = cls
         cls.ThisClassSharedPtrParameter = ThisClassSharedPtrParameter
-        try:
-            param_type_matcher.register(self.get_pointer_name(cls.full_name), cls.ThisClassSharedPtrParameter)
-        except ValueError:
-            pass
+        param_type_matcher.register_declared(self.get_pointer_name(cls.full_name), cls.ThisClassSharedPtrParameter, cls)
 
         class ThisClassSharedPtrReturn(CppClassSharedPtrReturnValue):
             """Register this C++ class as pointer return"""
             CTYPES = []
             cpp_class = cls
         cls.ThisClassSharedPtrReturn = ThisClassSharedPtrReturn
-        try:
-            return_type_matcher.register(self.get_pointer_name(cls.full_name), cls.ThisClassSharedPtrReturn)
-        except ValueError:
-            pass
+        return_type_matcher.register_declared(self.get_pointer_name(cls.full_name), cls.ThisClassSharedPtrReturn, cls)
 
-    def register_ptr_alias_parameter_and_return(self, cls, alias):        
+    def register_ptr_alias_parameter_and_return(self, cls, alias, definitive=False):
         alias_ptr = self.get_pointer_name(alias)
         cls.ThisClassSharedPtrParameter.CTYPES.append(alias_ptr)
-        try:
-            param_type_matcher.register(alias_ptr, cls.ThisClassSharedPtrParameter)
-        except ValueError: pass
+        param_type_matcher.register_declared(alias_ptr, cls.ThisClassSharedPtrParameter, cls, definitive)
 
         cls.ThisClassSharedPtrReturn.CTYPES.append(alias_ptr)
-        try:
-            return_type_matcher.register(alias_ptr, cls.ThisClassSharedPtrReturn)
-        except ValueError: pass
+        return_type_matcher.register_declared(alias_ptr, cls.ThisClassSharedPtrReturn, cls, definitive)
 
 def boost_shared_ptr_instance_creation_function(cpp_class, code_block, lvalue,
                                                 parameters, construct_type_name):
-- 
2.43.0


From e15d99e48e28a1edabc0be8611962452f5fd7b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 070/123] fix: the module initialization function has the name
 of the module file

---
 pybindgen/module.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybindgen/module.py b/pybindgen/module.py
index 95f70a6..f80f490 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -856,11 +856,9 @@ __attribute__ ((visibility("default")))
         else:
             main_sink.writeln("static PyObject *")
         if self.parent is None:
-            main_sink.writeln("MOD_INIT(%s)" % (self.name,))
-        elif module_file_base_name is None:
-            main_sink.writeln("%s(void)" % (self.init_function_name,))
+            main_sink.writeln("MOD_INIT(%s)" % ((module_file_base_name or self.name).split('.')[-1],))
         else:
-            main_sink.writeln("init%s(void)" % (module_file_base_name,))
+            main_sink.writeln("%s(void)" % (self.init_function_name,))
         main_sink.writeln('{')
         main_sink.indent()
         self.declarations.get_code_sink().flush_to(main_sink)
-- 
2.43.0


From 43590349ef7e139ac202cb43a5502d90b1ce2794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 071/123] fix: submodules can be imported by their dotted name

---
 pybindgen/module.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pybindgen/module.py b/pybindgen/module.py
index f80f490..e304a6c 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -811,7 +811,14 @@ class ModuleBase(dict):
             self.after_init.write_code('%s = %s();' % (
                     submodule_var, submodule.init_function_name))
             self.after_init.write_error_check('%s == NULL' % submodule_var)
+            self.after_init.write_code('#if PY_VERSION_HEX >= 0x03000000')
+            self.after_init.write_error_check(
+                'PyDict_SetItemString(PyImport_GetModuleDict(), (char *) "%s", %s)'
+                % ('.'.join(submodule.get_module_path()), submodule_var),
+                'Py_DECREF(%s);' % (submodule_var,))
+            self.after_init.write_code('#else')
             self.after_init.write_code('Py_INCREF(%s);' % (submodule_var,))
+            self.after_init.write_code('#endif')
             self.after_init.write_code('PyModule_AddObject(m, (char *) "%s", %s);'
                                        % (submodule.name, submodule_var,))
 
-- 
2.43.0


From 98ec042f498b396b5f6b3ba6bba8032900c9d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 072/123] fix: a container iterator does not hide the class of
 the same name

---
 pybindgen/container.py          | 5 +++--
 pybindgen/cppclass_container.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 1199972..55d0081 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -344,8 +344,9 @@ typedef struct {
                 'PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
                 class_python_name, self.pytypestruct))
             module.after_init.write_code(
-                'PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
-                class_python_name+'Iter', self.iter_pytypestruct))
+                'if (!PyObject_HasAttrString(m, (char *) \"%s\"))\n'
+                '    PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
+                class_python_name+'Iter', class_python_name+'Iter', self.iter_pytypestruct))
         else:
             module.after_init.write_code(
                 'PyDict_SetItemString((PyObject*) %s.tp_dict, (char *) \"%s\", (PyObject *) &%s);' % (
diff --git a/pybindgen/cppclass_container.py b/pybindgen/cppclass_container.py
index c214ceb..67572bc 100644
--- a/pybindgen/cppclass_container.py
+++ b/pybindgen/cppclass_container.py
@@ -139,8 +139,9 @@ typedef struct {
 
         if self.cppclass.outer_class is None:
             module.after_init.write_code(
-                'PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
-                self.get_iter_python_name(), self.iter_pytypestruct))
+                'if (!PyObject_HasAttrString(m, (char *) \"%s\"))\n'
+                '    PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
+                self.get_iter_python_name(), self.get_iter_python_name(), self.iter_pytypestruct))
         else:
             module.after_init.write_code(
                 'PyDict_SetItemString((PyObject*) %s.tp_dict, (char *) \"%s\", (PyObject *) &%s);' % (
-- 
2.43.0


From 86b487f5d806a325d602418c6e81616110040e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 073/123] fix: the __name__ of a class is its name in Python

---
 pybindgen/cppclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index bbbf9c5..0da8ba1 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2249,10 +2249,10 @@ typedef struct {
 
         if self.outer_class is None:
             mod_path = self._module.get_module_path()
-            mod_path.append(self.mangled_name)
+            mod_path.append(self.get_python_name())
             dict_.setdefault("tp_name", '.'.join(mod_path))
         else:
-            dict_.setdefault("tp_name", '%s.%s' % (self.outer_class.slots['tp_name'], self.name))
+            dict_.setdefault("tp_name", '%s.%s' % (self.outer_class.slots['tp_name'], self.get_python_name()))
 
         ## tp_call support
         try:
-- 
2.43.0


From f9f9a8fd4056fd99aa29c0e8572fbce10de85a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 074/123] fix: wrappers of different declarations have
 different C names

---
 pybindgen/container.py          | 12 +++++++-----
 pybindgen/cppclass.py           | 11 +++++++----
 pybindgen/cppclass_container.py |  4 ++--
 pybindgen/cppexception.py       |  3 ++-
 pybindgen/cppmethod.py          |  4 ++--
 pybindgen/function.py           |  4 ++--
 pybindgen/module.py             | 24 +++++++++++++++++++++++-
 7 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 55d0081..4383247 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -238,14 +238,16 @@ class Container(object):
         self.mangled_name = flatten(self.name)
         self.mangled_full_name = utils.mangle_name(self.full_name)
 
-        self._pystruct = "Py%s%s" % (prefix, self.mangled_full_name)
-        self.pytypestruct = "Py%s%s_Type" % (prefix,  self.mangled_full_name)
+        unique_name = self._module.get_unique_name(self.mangled_full_name, self, (
+            "Py" + prefix + "%s", "Py" + prefix + "%s_Type", "Py" + prefix + "%sIter", "Py" + prefix + "%sIter_Type"))
+        self._pystruct = "Py%s%s" % (prefix, unique_name)
+        self.pytypestruct = "Py%s%s_Type" % (prefix, unique_name)
 
-        self._iter_pystruct = "Py%s%sIter" % (prefix, self.mangled_full_name)
-        self.iter_pytypestruct = "Py%s%sIter_Type" % (prefix,  self.mangled_full_name)
+        self._iter_pystruct = "Py%s%sIter" % (prefix, unique_name)
+        self.iter_pytypestruct = "Py%s%sIter_Type" % (prefix, unique_name)
 
         ## re-register the class type handlers, now with class full name
-        self.register_alias(self.full_name)
+        self.register_alias(self.full_name, definitive=True)
 
         self.python_to_c_converter = self.module.get_root().get_python_to_c_type_converter_function_name(
             self.ThisContainerReturn(self.full_name))
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 0da8ba1..ac3bc71 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1188,9 +1188,11 @@ class CppClass(object):
             self.mangled_name += mangled_template_params
             self.mangled_full_name += mangled_template_params
 
-        self._pystruct = "Py%s%s" % (prefix, self.mangled_full_name)
-        self.metaclass_name = "%sMeta" % self.mangled_full_name
-        self.pytypestruct = "Py%s%s_Type" % (prefix,  self.mangled_full_name)
+        unique_name = self._module.get_unique_name(self.mangled_full_name, self, (
+            "Py" + prefix + "%s", "Py" + prefix + "%s_Type", "Py" + prefix + "%sMeta_Type", "%sMeta__getsets"))
+        self._pystruct = "Py%s%s" % (prefix, unique_name)
+        self.metaclass_name = "%sMeta" % unique_name
+        self.pytypestruct = "Py%s%s_Type" % (prefix, unique_name)
 
         self.instance_attributes.cname = "%s__getsets" % self._pystruct
         self.static_attributes.cname = "%s__getsets" % self.metaclass_name
@@ -1436,7 +1438,8 @@ public:
                 (self.full_name, method.parameters[0].cpp_class.full_name)
             method.parameters[0].take_value_from_python_self = True
             method.module = self.module
-            method.wrapper_base_name = "_wrap_%s_%s" % (self.pystruct, method.mangled_name)
+            method.wrapper_base_name = self.module.get_unique_name(
+                "_wrap_%s_%s" % (self.pystruct, method.mangled_name), (self, method.mangled_name))
             method.is_virtual = False
             method.is_pure_virtual = False
             method.self_parameter_pystruct = self.pystruct
diff --git a/pybindgen/cppclass_container.py b/pybindgen/cppclass_container.py
index 67572bc..3041ea0 100644
--- a/pybindgen/cppclass_container.py
+++ b/pybindgen/cppclass_container.py
@@ -90,11 +90,11 @@ class CppClassContainerTraits(object):
             self.value_type = utils.eval_retval(value_type, self)
 
     def get_iter_pystruct(self):
-        return "%s_Iter" % self.cppclass.pystruct
+        return "%s__Iter" % self.cppclass.pystruct
     iter_pystruct = property(get_iter_pystruct)
 
     def get_iter_pytypestruct(self):
-        return "%s_IterType" % self.cppclass.pystruct
+        return "%s__IterType" % self.cppclass.pystruct
     iter_pytypestruct = property(get_iter_pytypestruct)
 
 
diff --git a/pybindgen/cppexception.py b/pybindgen/cppexception.py
index 252a04f..80a6554 100644
--- a/pybindgen/cppexception.py
+++ b/pybindgen/cppexception.py
@@ -106,7 +106,8 @@ class CppException(object):
         if self.is_standard_error:
             self.pytypestruct = "PyExc_%s" % self.python_name
         else:
-            self.pytypestruct = "Py%s%s_Type" % (prefix,  self.mangled_full_name)
+            unique_name = self._module.get_unique_name(self.mangled_full_name, self, ("Py" + prefix + "%s_Type",))
+            self.pytypestruct = "Py%s%s_Type" % (prefix, unique_name)
 
     def _get_python_name(self):
         if self.custom_name is None:
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 256bf43..9a7dfc0 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -234,8 +234,8 @@ class CppMethod(ForwardWrapperBase):
     def set_class(self, class_):
         """set the class object this method belongs to"""
         self._class = class_
-        self.wrapper_base_name = "_wrap_%s_%s" % (
-            class_.pystruct, self.mangled_name)
+        self.wrapper_base_name = class_.module.get_unique_name(
+            "_wrap_%s_%s" % (class_.pystruct, self.mangled_name), (class_, self.mangled_name))
     def get_class(self):
         """get the class object this method belongs to"""
         return self._class
diff --git a/pybindgen/function.py b/pybindgen/function.py
index fffcc3a..0e5d86b 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -172,8 +172,8 @@ class Function(ForwardWrapperBase):
     def set_module(self, module):
         """Set the Module object this function belongs to"""
         self._module = module
-        self.wrapper_base_name = "_wrap_%s_%s" % (
-            module.prefix, self.mangled_name)
+        self.wrapper_base_name = module.get_unique_name(
+            "_wrap_%s_%s" % (module.prefix, self.mangled_name), (module.prefix, self.mangled_name))
     module = property(get_module, set_module)
 
     def generate_call(self):
diff --git a/pybindgen/module.py b/pybindgen/module.py
index e304a6c..c71cda5 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -258,11 +258,13 @@ class ModuleBase(dict):
         self.c_function_name_transformer = None
         self.set_strip_prefix(name + '_')
         if parent is None:
+            self._unique_names = {} # C name => owner
             self.header = MemoryCodeSink()
             self.body = MemoryCodeSink()
             self.one_time_definitions = {}
             self.includes = []
         else:
+            self._unique_names = parent._unique_names
             self.header = parent.header
             self.body = parent.body
             self.one_time_definitions = parent.one_time_definitions
@@ -270,6 +272,26 @@ class ModuleBase(dict):
 
         self._current_section = '__main__'
 
+    def get_unique_name(self, name, owner, formats=("%s",)):
+        """
+        (internal) Get a name for use in C identifiers, different from
+        the names that other owners got in any (sub)module of the same
+        root module.
+
+        :param name: the wanted name; it is changed only if it is already taken
+        :param owner: something that identifies what is named
+        :param formats: the C identifiers that are going to be made of the name
+        """
+        unique_names = self._unique_names
+        unique_name = name
+        number = 1
+        while [fmt for fmt in formats if unique_names.get(fmt % unique_name, owner) != owner]:
+            number += 1
+            unique_name = "%s__%i" % (name, number)
+        for fmt in formats:
+            unique_names[fmt % unique_name] = owner
+        return unique_name
+
     def get_current_section(self):
         return self.get_root()._current_section
     current_section = property(get_current_section)
@@ -317,7 +339,7 @@ class ModuleBase(dict):
             self.prefix = self.name.replace('.', '_')
             self.init_function_name = "init%s" % (self.name.split('.')[-1],)
         else:
-            self.prefix = self.parent.prefix + "_" + self.name
+            self.prefix = self.parent.get_unique_name(self.parent.prefix + "_" + self.name, id(self))
             self.init_function_name = "init%s" % (self.prefix,)
     
     name = property(get_name, set_name)
-- 
2.43.0


From 37d7b1a548fb1b663ef9fef60e7fa1835bef9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 075/123] fix: report custodian/ward numbers that do not exist
 as configuration errors

---
 pybindgen/cppclass.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index ac3bc71..81c293b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3982,14 +3982,17 @@ def _add_ward(code_block, custodian, ward, failure_cleanup=None):
 
 
 def _get_custodian_or_ward(wrapper, num):
+    py_name = None
     if num == -1:
-        assert wrapper.return_value.py_name is not None
-        return "((PyObject *) %s)" % wrapper.return_value.py_name
+        py_name = getattr(wrapper.return_value, 'py_name', None)
     elif num == 0:
-        return "((PyObject *) self)"
-    else:
-        assert wrapper.parameters[num-1].py_name is not None
-        return "((PyObject *) %s)" % wrapper.parameters[num-1].py_name
+        if not isinstance(wrapper, function.Function) or wrapper.self_parameter_pystruct is not None:
+            py_name = 'self'
+    elif 0 < num <= len(wrapper.parameters):
+        py_name = wrapper.parameters[num-1].py_name
+    if py_name is None:
+        raise TypeConfigurationError("%r is not the number of an object that can be a custodian or a ward" % (num,))
+    return "((PyObject *) %s)" % py_name
 
 
 def implement_parameter_custodians_precall(wrapper):
-- 
2.43.0


From 538d47ce319db46ac3f35cb934077547f4ed37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 076/123] fix: offer every error to the error handler once, and
 only for the wrapper concerned

---
 pybindgen/cppclass.py    |  6 ++++--
 pybindgen/overloading.py | 29 +++++++++++++++++------------
 pybindgen/utils.py       |  3 ++-
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 81c293b..09ca05a 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -425,7 +425,7 @@ void set_pyobj(PyObject *pyobj)
 
         if not self.class_.import_from_module:
             ## write the parent callers (_name)
-            for parent_caller in self.virtual_parent_callers.values():
+            for name, parent_caller in list(self.virtual_parent_callers.items()):
                 #parent_caller.class_ = self.class_
                 parent_caller.helper_class = self
                 parent_caller.reset_code_generation_state()
@@ -435,6 +435,7 @@ void set_pyobj(PyObject *pyobj)
                         utils.call_with_error_handling(parent_caller.generate,
                                                        (NullCodeSink(),), {}, parent_caller)
                     except utils.SkipWrapper:
+                        self.virtual_parent_callers.pop(name) # already reported
                         continue
                 finally:
                     parent_caller.reset_code_generation_state()
@@ -447,7 +448,7 @@ void set_pyobj(PyObject *pyobj)
 
 
             ## write the virtual proxies
-            for virtual_proxy in self.virtual_proxies:
+            for virtual_proxy in list(self.virtual_proxies):
                 #virtual_proxy.class_ = self.class_
                 virtual_proxy.helper_class = self
                 ## test code generation
@@ -461,6 +462,7 @@ void set_pyobj(PyObject *pyobj)
                     except utils.SkipWrapper:
                         if virtual_proxy.method.is_pure_virtual:
                             return False
+                        self.virtual_proxies.remove(virtual_proxy) # already reported
                         continue
 
                 finally:
diff --git a/pybindgen/overloading.py b/pybindgen/overloading.py
index dc7bcef..034f3ae 100644
--- a/pybindgen/overloading.py
+++ b/pybindgen/overloading.py
@@ -5,8 +5,6 @@ from pybindgen.typehandlers.base import TypeConfigurationError, CodeGenerationEr
 from pybindgen.typehandlers.base import ForwardWrapperBase
 from pybindgen.typehandlers.codesink import NullCodeSink
 from . import utils
-from . import settings
-import traceback
 import sys
 
 PY3 = (sys.version_info[0] >= 3)
@@ -105,10 +103,8 @@ class OverloadedWrapper(object):
                     wrapper_flags = utils.call_with_error_handling(
                         wrapper.get_py_method_def_flags, args=(), kwargs={}, wrapper=wrapper)
                 except utils.SkipWrapper:
-                    _, ex, tb = sys.exc_info()
                     modified = True
                     self.wrappers.remove(wrapper)
-                    settings.error_handler.handle_error(wrapper, ex, tb)
                     break
 
                 wrapper_flags = set(wrapper_flags)
@@ -118,14 +114,17 @@ class OverloadedWrapper(object):
                     if wrapper_flags != existing_flags:
                         modified = True
                         self.wrappers.remove(wrapper)
-                        tb = traceback.extract_stack()
-                        ex = utils.SkipWrapper(
-                            "overloading: removed the wrapper %s because its"
-                            " method flags are different from existing ones."
-                            % (wrapper,))
-                        settings.error_handler.handle_error(wrapper, ex, tb)
+                        try:
+                            utils.call_with_error_handling(self._refuse_method_flags, (wrapper,), {}, wrapper)
+                        except utils.SkipWrapper:
+                            pass
                         break
 
+    def _refuse_method_flags(self, wrapper):
+        raise CodeGenerationError("overloading: the wrapper %s cannot be used because its"
+                                  " method flags are different from existing ones."
+                                  % (wrapper,))
+
     def _compute_all_wrappers(self):
         """
         Computes all the wrappers that should be generated; this
@@ -150,8 +149,12 @@ class OverloadedWrapper(object):
             ## simple things simple
 
             #self.all_wrappers[0].generate(code_sink)
-            prototype_line = utils.call_with_error_handling(self.all_wrappers[0].generate,
-                                                            (code_sink,), {}, self.all_wrappers[0])
+            try:
+                prototype_line = utils.call_with_error_handling(self.all_wrappers[0].generate,
+                                                                (code_sink,), {}, self.all_wrappers[0])
+            except utils.SkipWrapper:
+                self.wrappers.remove(self.all_wrappers[0]) # already reported
+                raise
 
             self.wrapper_actual_name = self.all_wrappers[0].wrapper_actual_name
             assert self.wrapper_actual_name is not None
@@ -188,6 +191,8 @@ class OverloadedWrapper(object):
                         kwargs=dict(extra_wrapper_params=["PyObject **return_exception"]),
                         wrapper=wrapper)
                 except utils.SkipWrapper:
+                    if wrapper in self.wrappers:
+                        self.wrappers.remove(wrapper) # already reported
                     continue
 
                 delegate_wrappers.append(wrapper.wrapper_actual_name)
diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index ea851c1..cc3826e 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -256,11 +256,12 @@ def call_with_error_handling(callback, args, kwargs, wrapper,
             return callback(*args, **kwargs)
         except Exception:
             _, ex, _ = sys.exc_info()
-            if isinstance(ex, exceptions_to_handle):
+            if isinstance(ex, exceptions_to_handle) and not getattr(ex, 'error_handler_refused', False):
                 dummy1, dummy2, traceback = sys.exc_info()
                 if settings.error_handler.handle_error(wrapper, ex, traceback):
                     raise SkipWrapper
                 else:
+                    ex.error_handler_refused = True
                     raise
             else:
                 raise
-- 
2.43.0


From ba985cd6f44acf9a618f7e5ce156937a99ce4e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 077/123] fix: sequence methods whose wrappers have all been
 dropped

---
 pybindgen/cppclass.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 09ca05a..03f994f 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2199,13 +2199,12 @@ typedef struct {
         self_converter = root_module.generate_python_to_c_type_converter(self.ThisClassReturn(self.full_name), code_sink)
 
         def try_wrap_sequence_method(py_name, slot_name):
-            if py_name in self.methods:
-                numwraps = len(self.methods[py_name].wrappers)
-                some_wrapper_is_function = max([isinstance(x, function.Function) for x in self.methods[py_name].wrappers])
+            if py_name in self.methods and self.methods[py_name].wrappers:
+                takes_args = 'METH_VARARGS' in self.methods[py_name].wrappers[0].get_py_method_def_flags()
                 meth_wrapper_actual_name = self.methods[py_name].wrapper_actual_name
                 wrapper_name = "%s__%s" % (self.mangled_full_name, slot_name)
                 pysequencemethods.slots[slot_name] = wrapper_name
-                if py_name == "__len__" and (numwraps > 1 or some_wrapper_is_function):
+                if py_name == "__len__" and takes_args:
                     template = pysequencemethods.FUNCTION_TEMPLATES[slot_name + "_ARGS"]
                 else:
                     template = pysequencemethods.FUNCTION_TEMPLATES[slot_name]
@@ -2224,7 +2223,7 @@ typedef struct {
     def have_sequence_methods(self):
         """Determine if this object has sequence methods registered."""
         for x in self.valid_sequence_methods:
-            if x in self.methods:
+            if x in self.methods and self.methods[x].wrappers:
                 return True
         return False
 
-- 
2.43.0


From ba6718db6c43eb7ff159559edd774d9b3973b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 078/123] fix: numeric operators with a bad operand leave no
 empty operator behind

---
 pybindgen/cppclass.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 03f994f..5e6675f 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -844,11 +844,6 @@ class CppClass(object):
             raise TypeError("expected operator name as string")
         if operator not in ['+', '-', '*', '/']:
             raise ValueError("The operator %r is invalid or not yet supported by PyBindGen" % (operator,))
-        try:
-            l = self.binary_numeric_operators[operator]
-        except KeyError:
-            l = []
-            self.binary_numeric_operators[operator] = l
         if result_cppclass is None:
             result_cppclass = self
         if left_cppclass is None:
@@ -867,6 +862,7 @@ class CppClass(object):
                 return
 
         op = (result_cppclass, left_cppclass, right)
+        l = self.binary_numeric_operators.setdefault(operator, [])
         if op not in l:
             l.append(op)
 
@@ -887,11 +883,6 @@ class CppClass(object):
             raise TypeError("expected operator name as string")
         if operator not in ['+=', '-=', '*=', '/=']:
             raise ValueError("The operator %r is invalid or not yet supported by PyBindGen" % (operator,))
-        try:
-            l = self.inplace_numeric_operators[operator]
-        except KeyError:
-            l = []
-            self.inplace_numeric_operators[operator] = l
         if right is None:
             right = self
         elif isinstance(right, CppClass):
@@ -904,6 +895,7 @@ class CppClass(object):
             except utils.SkipWrapper:
                 return
         op = (self, self, right)
+        l = self.inplace_numeric_operators.setdefault(operator, [])
         if op not in l:
             l.append(op)
 
-- 
2.43.0


From 2c1e0ee2af1d34c8fc01f51d51cd070c026a4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 079/123] fix: container traits dropped by the error handler
 are dropped

---
 pybindgen/cppclass.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 5e6675f..eabc8a5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -805,7 +805,10 @@ class CppClass(object):
 
     def add_container_traits(self, *args, **kwargs):
         assert self.container_traits is None
-        self.container_traits = CppClassContainerTraits(self, *args, **kwargs)
+        try:
+            self.container_traits = CppClassContainerTraits(self, *args, **kwargs)
+        except utils.SkipWrapper:
+            return
 
     def add_binary_comparison_operator(self, operator):
         """
-- 
2.43.0


From 1f9fde0f958c98597305f305ba7a7ae9ae0a907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 080/123] fix: attributes whose getter cannot be generated are
 dropped

---
 pybindgen/cppattribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 21cac92..134a3cf 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -397,7 +397,7 @@ class PyGetSetDef(object):
                 try:
                     utils.call_with_error_handling(setter.generate, (code_sink,), {}, setter)
                 except utils.SkipWrapper:
-                    pass
+                    continue
                 else:
                     setter_name = setter.c_function_name
             assert name not in getsets
-- 
2.43.0


From c7f7eaaa87cf7cd7e91cf4d675594f4c7240536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 081/123] fix: classes with several bases and static attributes
 can be imported

---
 pybindgen/cppattribute.py | 37 +++++++++++++++++++++++++++++++++++--
 pybindgen/cppclass.py     | 31 +++++++++++++++++++++----------
 2 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 134a3cf..dd1d865 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -257,7 +257,7 @@ class PyMetaclass(object):
     """
     Class that generates a Python metaclass
     """
-    def __init__(self, name, parent_metaclass_expr, getsets=None):
+    def __init__(self, name, parent_metaclass_expr, getsets=None, other_parent_metaclass_exprs=()):
         """
         :param name: name of the metaclass (should normally end with Meta)
         :param parent_metaclass_expr: C expression that should give a
@@ -265,6 +265,9 @@ class PyMetaclass(object):
                                  (should have a C type of
                                  PyTypeObject*)
         :param getsets: name of a PyGetSetDef C array variable, or None
+        :param other_parent_metaclass_exprs: C expressions that give
+                                 pointers to further parents, in case
+                                 of multiple inheritance
         """
         assert getsets is None or isinstance(getsets, PyGetSetDef)
         assert isinstance(name, string_types)
@@ -275,6 +278,7 @@ class PyMetaclass(object):
         self.pytypestruct = "Py%s%s_Type" % (prefix, self.name)
         self.parent_metaclass_expr = parent_metaclass_expr
         self.getsets = getsets
+        self.other_parent_metaclass_exprs = list(other_parent_metaclass_exprs)
 
     def generate(self, code_sink, module):
         """
@@ -332,6 +336,35 @@ PyTypeObject %(pytypestruct)s = {
 ''' % dict(pytypestruct=self.pytypestruct, name=self.name,
            getset=(self.getsets and self.getsets.cname or '0')))
 
+        parent_metaclass_expr = self.parent_metaclass_expr
+        if self.other_parent_metaclass_exprs:
+            # the parents are the metaclasses that are not a base of another one
+            parents = module.after_init.declare_variable('PyTypeObject *', 'metaclass_parents', array='[%i]' % (
+                len(self.other_parent_metaclass_exprs) + 1))
+            i = module.after_init.declare_variable('int', 'metaclass_i')
+            j = module.after_init.declare_variable('int', 'metaclass_j')
+            bases = module.after_init.declare_variable('PyObject *', 'metaclass_bases')
+            num = len(self.other_parent_metaclass_exprs) + 1
+            for n, expr in enumerate([self.parent_metaclass_expr] + self.other_parent_metaclass_exprs):
+                module.after_init.write_code('%s[%i] = %s;' % (parents, n, expr))
+            module.after_init.write_code('''
+%(bases)s = PyList_New(0);
+for (%(i)s = 0; %(i)s < %(num)i; %(i)s++) {
+    for (%(j)s = 0; %(j)s < %(num)i; %(j)s++) {
+        if (%(j)s != %(i)s && PyType_IsSubtype(%(parents)s[%(j)s], %(parents)s[%(i)s])
+            && (%(parents)s[%(j)s] != %(parents)s[%(i)s] || %(j)s < %(i)s)) {
+            break;
+        }
+    }
+    if (%(j)s == %(num)i) {
+        PyList_Append(%(bases)s, (PyObject *) %(parents)s[%(i)s]);
+    }
+}
+%(pytypestruct)s.tp_bases = PyList_AsTuple(%(bases)s);
+Py_DECREF(%(bases)s);
+''' % dict(bases=bases, i=i, j=j, num=num, parents=parents, pytypestruct=self.pytypestruct))
+            parent_metaclass_expr = '((PyTypeObject *) PyTuple_GET_ITEM(%s.tp_bases, 0))' % self.pytypestruct
+
         module.after_init.write_code("""
 %(pytypestruct)s.tp_base = %(parent_metaclass)s;
 /* Some fields need to be manually inheritted from the parent metaclass */
@@ -341,7 +374,7 @@ PyTypeObject %(pytypestruct)s = {
 /* PyType tp_setattro is too restrictive */
 %(pytypestruct)s.tp_setattro = PyObject_GenericSetAttr;
 PyType_Ready(&%(pytypestruct)s);
-""" % dict(pytypestruct=self.pytypestruct, parent_metaclass=self.parent_metaclass_expr))
+""" % dict(pytypestruct=self.pytypestruct, parent_metaclass=parent_metaclass_expr))
         
 
 
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index eabc8a5..2a39265 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1433,15 +1433,8 @@ public:
             assert method.parameters[0].cpp_class is self, \
                 "expected first parameter to be of class %s, but it is of class %s" % \
                 (self.full_name, method.parameters[0].cpp_class.full_name)
-            method.parameters[0].take_value_from_python_self = True
             method.module = self.module
-            method.wrapper_base_name = self.module.get_unique_name(
-                "_wrap_%s_%s" % (self.pystruct, method.mangled_name), (self, method.mangled_name))
-            method.is_virtual = False
-            method.is_pure_virtual = False
-            method.self_parameter_pystruct = self.pystruct
-            method.visibility = 'public'
-            method.force_parse = method.PARSE_TUPLE_AND_KEYWORDS
+            self._make_function_method(method)
         else:
             raise TypeError
 
@@ -1569,6 +1562,21 @@ public:
         self._add_method_obj(meth)
         return meth
 
+    def _make_function_method(self, method):
+        """
+        Turn a Function whose first parameter is the object into a
+        wrapper of a method of this class
+        """
+        method.parameters[0].take_value_from_python_self = True
+        method.wrapper_base_name = self.module.get_unique_name(
+            "_wrap_%s_%s" % (self.pystruct, method.mangled_name), (self, method.mangled_name))
+        method.is_virtual = False
+        method.is_pure_virtual = False
+        method.is_const = False
+        method.self_parameter_pystruct = self.pystruct
+        method.visibility = 'public'
+        method.force_parse = method.PARSE_TUPLE_AND_KEYWORDS
+
     def add_function_as_method(self, *args, **kwargs):
         """
         Add a function as method of the class. See the documentation for
@@ -1976,7 +1984,9 @@ typedef struct {
         module.after_init.write_code("/* Register the '%s' class */" % self.full_name)
 
         ## generate a metaclass if needed
-        if static_getsets == '0':
+        inherits_static_attributes = any(class_.static_attributes.attributes
+                                         for base in self.bases[1:] for class_ in base.get_mro())
+        if static_getsets == '0' and not inherits_static_attributes:
             metaclass = None
         else:
             if self.parent is None:
@@ -1985,7 +1995,8 @@ typedef struct {
                 parent_typestruct = self.parent.pytypestruct
             metaclass = PyMetaclass(self.metaclass_name,
                                     "Py_TYPE(&%s)" % parent_typestruct,
-                                    self.static_attributes)
+                                    static_getsets != '0' and self.static_attributes or None,
+                                    ["Py_TYPE(&%s)" % base.pytypestruct for base in self.bases[1:]])
             metaclass.generate(code_sink, module)
 
         if self.parent is not None:
-- 
2.43.0


From 813fd5fff9dbdd311d0e9c8331b5c79bda6a0422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 082/123] fix: functions added as methods in classes with
 several bases

---
 pybindgen/cppattribute.py |  4 ++--
 pybindgen/cppclass.py     | 38 ++++++++++++++++++++++++++++++++------
 pybindgen/function.py     | 14 +++++++++++++-
 3 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index dd1d865..385c5de 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -420,7 +420,7 @@ class PyGetSetDef(object):
                 try:
                     utils.call_with_error_handling(getter.generate, (code_sink,), {}, getter)
                 except utils.SkipWrapper:
-                    pass
+                    continue
                 else:
                     getter_name = getter.c_function_name
 
@@ -430,7 +430,7 @@ class PyGetSetDef(object):
                 try:
                     utils.call_with_error_handling(setter.generate, (code_sink,), {}, setter)
                 except utils.SkipWrapper:
-                    continue
+                    pass
                 else:
                     setter_name = setter.c_function_name
             assert name not in getsets
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 2a39265..ac1ee0d 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2011,12 +2011,35 @@ typedef struct {
                                                  % (self.pytypestruct, basenum, base.pytypestruct))
 
         if metaclass is not None:
-            module.after_init.write_code('Py_TYPE(&%s) = &%s;' %
-                                         (self.pytypestruct, metaclass.pytypestruct))
+            class_type = '&%s' % metaclass.pytypestruct
+        elif len(self.bases) > 1:
+            class_type = 'Py_TYPE(&%s)' % self.parent.pytypestruct
+        else:
+            class_type = None
+
+        # objects of a class with multiple bases have to be bigger than
+        # the ones of its bases for Python to see it has a layout of
+        # its own, and the ones of its subclasses at least that big
+        for base in self.bases:
+            module.after_init.write_code('if (%(type)s.tp_basicsize %(op)s %(base)s.tp_basicsize) {\n'
+                                         '    %(type)s.tp_basicsize = %(base)s.tp_basicsize%(extra)s;\n'
+                                         '}' % dict(type=self.pytypestruct, base=base.pytypestruct,
+                                                    op=(len(self.bases) > 1 and '<=' or '<'),
+                                                    extra=(len(self.bases) > 1 and ' + sizeof(void *)' or '')))
+
+        if len(self.bases) > 1:
+            # Python does not check if the layouts of the bases are
+            # compatible (they are not) only if there is no metaclass
+            module.after_init.write_code('Py_TYPE(&%s) = &PyType_Type;' % self.pytypestruct)
+        elif class_type is not None:
+            module.after_init.write_code('Py_TYPE(&%s) = %s;' % (self.pytypestruct, class_type))
 
         module.after_init.write_error_check('PyType_Ready(&%s)'
                                           % (self.pytypestruct,))
 
+        if len(self.bases) > 1:
+            module.after_init.write_code('Py_TYPE(&%s) = %s;' % (self.pytypestruct, class_type))
+
         class_python_name = self.get_python_name()
 
         if self.outer_class is None:
@@ -2402,6 +2425,9 @@ if (self->inst_dict) {
                     if parent_wrapper.visibility != 'public':
                         continue
 
+                    if isinstance(parent_wrapper, CustomCppMethodWrapper):
+                        continue # its code is written for the parent class
+
                     # the method may have been re-defined as private in our class
                     private = False
                     for leaf_wrapper in self.nonpublic_methods:
@@ -2428,6 +2454,8 @@ if (self->inst_dict) {
                     wrapper = parent_wrapper.clone()
                     wrapper.original_class = base
                     wrapper.class_ = self
+                    if isinstance(wrapper, function.Function):
+                        self._make_function_method(wrapper)
                     overload.add(wrapper)
 
         method_defs = []
@@ -3084,8 +3112,7 @@ class CppClassParameter(CppClassParameterBase):
 
         if self.take_value_from_python_self:
             self.py_name = 'self'
-            wrapper.call_params.append(
-                '*((%s *) %s)->obj' % (self.cpp_class.pystruct, self.py_name))
+            wrapper.call_params.append('*self->obj')
         else:
             implicit_conversion_sources = self.cpp_class.get_all_implicit_conversions()
             if not implicit_conversion_sources:
@@ -3202,8 +3229,7 @@ class CppClassRefParameter(CppClassParameterBase):
         if self.direction == Parameter.DIRECTION_IN:
             if self.take_value_from_python_self:
                 self.py_name = 'self'
-                wrapper.call_params.append(
-                    '*((%s *) %s)->obj' % (self.cpp_class.pystruct, self.py_name))
+                wrapper.call_params.append('*self->obj')
             else:
                 implicit_conversion_sources = self.cpp_class.get_all_implicit_conversions()
                 if not (implicit_conversion_sources and self.type_traits.target_is_const):
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 0e5d86b..62f7a79 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -118,7 +118,11 @@ class Function(ForwardWrapperBase):
                         self.return_value,
                         [copy(param) for param in self.parameters],
                         docstring=self.docstring,
-                        custom_name=self.custom_name)
+                        unblock_threads=self.unblock_threads,
+                        template_parameters=self.template_parameters,
+                        custom_name=self.custom_name,
+                        deprecated=self.deprecated,
+                        foreign_cpp_namespace=self.foreign_cpp_namespace)
         func._module = self._module
         func.wrapper_base_name = self.wrapper_base_name
         func.wrapper_actual_name = self.wrapper_actual_name
@@ -127,6 +131,14 @@ class Function(ForwardWrapperBase):
 
         return func
 
+    def matches_signature(self, other):
+        """
+        Used for functions added as methods: True if both wrap the same
+        method.
+        """
+        return (isinstance(other, Function) and self.mangled_name == other.mangled_name
+                and [p.ctype for p in self.parameters[1:]] == [p.ctype for p in other.parameters[1:]])
+
     def add_custodian_and_ward(self, custodian, ward, postcall=None):
         """Add a custodian/ward relationship to the function wrapper
 
-- 
2.43.0


From 61c1fd74266963a8b05dad938277795d401061c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 083/123] fix: code of the main file is not written to a
 section named __main__

---
 pybindgen/module.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybindgen/module.py b/pybindgen/module.py
index c71cda5..3e3a3ac 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -136,12 +136,11 @@ class _MultiSectionSinkManager(_SinkManager):
         self.multi_section_factory.get_main_code_sink().writeln(
             "#include %s" % self.multi_section_factory.get_common_header_include())
         self._already_initialized_sections = {}
-        self._already_initialized_sections['__main__'] = True
 
     def get_code_sink_for_wrapper(self, wrapper):
         header_sink = self.multi_section_factory.get_common_header_code_sink()
         section = getattr(wrapper, "section", None)
-        if section is None:
+        if section is None or section == '__main__':
             return self.multi_section_factory.get_main_code_sink(), header_sink
         else:
             section_sink = self.multi_section_factory.get_section_code_sink(section)
-- 
2.43.0


From 426a92d9c35dd3c235326302dd872e94a0b059cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 084/123] fix: declare all metaclasses for the other sections

---
 pybindgen/cppclass.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index ac1ee0d..9ed46bc 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1862,7 +1862,7 @@ typedef struct {
             code_sink.writeln('#define %s (*_%s)' % (self.pytypestruct, self.pytypestruct))
         else:
             code_sink.writeln('extern PyTypeObject %s;' % (self.pytypestruct,))
-            if not self.static_attributes.empty():
+            if not self.static_attributes.empty() or self._other_bases_have_static_attributes():
                 code_sink.writeln('extern PyTypeObject Py%s_Type;' % (self.metaclass_name,))
 
         code_sink.writeln()
@@ -1984,9 +1984,7 @@ typedef struct {
         module.after_init.write_code("/* Register the '%s' class */" % self.full_name)
 
         ## generate a metaclass if needed
-        inherits_static_attributes = any(class_.static_attributes.attributes
-                                         for base in self.bases[1:] for class_ in base.get_mro())
-        if static_getsets == '0' and not inherits_static_attributes:
+        if static_getsets == '0' and not self._other_bases_have_static_attributes():
             metaclass = None
         else:
             if self.parent is None:
@@ -2256,6 +2254,9 @@ typedef struct {
                 return True
         return False
 
+    def _other_bases_have_static_attributes(self):
+        return any(not class_.static_attributes.empty() for base in self.bases[1:] for class_ in base.get_mro())
+
     def _generate_type_structure(self, code_sink, docstring):
         """generate the type structure"""
         self.slots.setdefault("tp_basicsize",
-- 
2.43.0


From 63153d8d69849bf090e89c3eff47a76a129bb777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 085/123] fix: rvalue references in the parser of C types

---
 pybindgen/typehandlers/ctypeparser/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybindgen/typehandlers/ctypeparser/__init__.py b/pybindgen/typehandlers/ctypeparser/__init__.py
index c06bdba..6879014 100644
--- a/pybindgen/typehandlers/ctypeparser/__init__.py
+++ b/pybindgen/typehandlers/ctypeparser/__init__.py
@@ -51,7 +51,7 @@ class CType(object):
                         other_token = self.tokens[new_pos]
                         if isinstance(other_token, CType):
                             continue
-                        if other_token.name in ['*', '&']:
+                        if other_token.name in ['*', '&', '&&']:
                             self.tokens.insert(new_pos, token)
                             break
                     else:
@@ -338,7 +338,7 @@ class TypeTraits(object):
                     self.type_is_pointer = True
                     target_pos = pos + 1
                 ptr_ref_level += 1
-            elif token.name == '&':
+            elif token.name in ['&', '&&']:
                 if ptr_ref_level == 0:
                     self.type_is_reference = True
                     target_pos = pos + 1
@@ -350,6 +350,7 @@ class TypeTraits(object):
             self.target.remove_modifiers()
         self.ctype_no_const_no_ref = self.ctype_no_const.clone()
         self.ctype_no_const_no_ref.remove_outer_modifier("&")
+        self.ctype_no_const_no_ref.remove_outer_modifier("&&")
         if self.type_is_reference and self.target_is_const:
             self.ctype_no_const_no_ref.remove_outer_modifier("const")
 
@@ -375,6 +376,6 @@ class TypeTraits(object):
                 token = tokens[token_i]
                 if isinstance(token, CType):
                     continue
-                elif token.name in ['*', '&']:
+                elif token.name in ['*', '&', '&&']:
                     tokens.insert(token_i, tokenizer.Token(tokenizer.NAME, "const", None, None))
                     break
-- 
2.43.0


From ba7619ab8204ba23ca7998ec3b8fc48a4e5ef48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 086/123] fix: '**' and spaces around '::' in the parser of C
 types

---
 .../typehandlers/ctypeparser/__init__.py      | 59 ++++++++++++++++++-
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/pybindgen/typehandlers/ctypeparser/__init__.py b/pybindgen/typehandlers/ctypeparser/__init__.py
index 6879014..61222ab 100644
--- a/pybindgen/typehandlers/ctypeparser/__init__.py
+++ b/pybindgen/typehandlers/ctypeparser/__init__.py
@@ -3,6 +3,10 @@ from pybindgen.typehandlers.ctypeparser import tokenizer
 
 MODIFIERS = ['const', 'volatile'] # XXX: are there others?
 
+INTEGER_WORDS = ['unsigned', 'signed', 'short', 'long', 'int', 'char']
+
+KEYWORDS = MODIFIERS + INTEGER_WORDS + ['double', 'float', 'bool', 'void', 'typename', 'struct', 'class', 'union', 'enum']
+
 try:
     set
 except NameError:
@@ -126,12 +130,40 @@ class CType(object):
         return ''.join(l)
 
 
+def _join_names(tokens):
+    """
+    Undo the differences between tokens that are caused by spaces only:
+    '**' is always two tokens, a qualified name is always a single
+    token, and a name that starts at the global scope has no leading
+    '::'.
+    """
+    retval = []
+    for token in tokens:
+        previous = (retval and retval[-1] or None)
+        if token.token_type == tokenizer.SYNTAX and token.name == '**':
+            retval.append(tokenizer.Token(tokenizer.SYNTAX, '*', None, None))
+            retval.append(tokenizer.Token(tokenizer.SYNTAX, '*', None, None))
+            continue
+        if token.token_type == tokenizer.NAME and previous is not None:
+            if (previous.token_type == tokenizer.NAME and previous.name not in KEYWORDS
+                and (previous.name.endswith('::') or token.name.startswith('::'))):
+                previous.name += token.name
+                continue
+            if token.name.startswith('::') and previous.name in ['>', '>>']:
+                retval.append(token) # member of a template instance
+                continue
+        retval.append(token)
+    for token_i, token in enumerate(retval):
+        if token.token_type == tokenizer.NAME and token.name.startswith('::') \
+                and (token_i == 0 or retval[token_i - 1].name not in ['>', '>>']):
+            token.name = token.name[2:]
+    return retval
+
+
 def _parse_type_recursive(tokens):
     ctype = CType()
     while tokens:
         token = tokens.pop(0)
-        if token.name.startswith('::'):
-            token.name = token.name[2:]
         if token.token_type == tokenizer.SYNTAX:
             if token.name in [ '>>' ]:
                 tokens.insert(0, tokenizer.Token(tokenizer.SYNTAX, token.name[0], None, None))
@@ -168,7 +200,7 @@ def parse_type(type_string):
     :param type_string: C type expression
     :returns: a L{CType} object representing the type
     """
-    tokens = list(tokenizer.GetTokens(type_string + '\n'))
+    tokens = _join_names(tokenizer.GetTokens(type_string + '\n'))
     ctype, last_token = _parse_type_recursive(tokens)
     assert last_token is None
     return ctype
@@ -200,6 +232,27 @@ def normalize_type_string(type_string):
     return str(ctype)
 
 
+def canonical_type_string(type_string):
+    """
+    Like L{normalize_type_string}, but the words of the integer types
+    are also put in a single order, without those that are redundant.
+
+    :param type_string: C type expression
+
+    >>> canonical_type_string('short unsigned int *')
+    'unsigned short *'
+    >>> canonical_type_string('std::map<unsigned, long signed int long const>')
+    'std::map< unsigned int, long long const >'
+    >>> canonical_type_string('char signed')
+    'signed char'
+    >>> canonical_type_string('double long')
+    'double long'
+    """
+    ctype = parse_type(type_string)
+    ctype.reorder_integer_words()
+    return str(ctype)
+
+
 class TypeTraits(object):
     """
     Parse a C type and gather some interesting properties.
-- 
2.43.0


From a7c47b99b2c3f94691c2c6df25e221b982084a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 087/123] fix: find integer types whatever the order of their
 words, and types with several aliases

---
 pybindgen/typehandlers/base.py                | 43 ++++++++-----------
 .../typehandlers/ctypeparser/__init__.py      | 26 ++++++++++-
 2 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 6776473..36b520e 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -1405,10 +1405,10 @@ class TypeMatcher(object):
     def __init__(self):
         """Constructor"""
         self._types = {}
+        self._canonical_names = {} # canonical C type name => C type name, as registered
         self._transformations = []
         self._declared = {} # C type name => wrapper of the type that was declared in a module
-        self._type_aliases = {}
-        self._type_aliases_rev = {}
+        self._type_aliases = {} # canonical C type name => list of its aliases
 
 
     def register_transformation(self, transformation):
@@ -1427,6 +1427,7 @@ class TypeMatcher(object):
         if name in self._types:
             raise ValueError("return type %s already registered" % (name,))
         self._types[name] = type_handler
+        self._canonical_names.setdefault(ctypeparser.canonical_type_string(name), name)
 
     def register_declared(self, name, type_handler, wrapper, definitive=False):
         """Register a new handler class for a C type declared in a module
@@ -1442,6 +1443,8 @@ class TypeMatcher(object):
            before, in other scopes, and can be found by the same name.
         """
         name = ctypeparser.normalize_type_string(name)
+        canonical_name = ctypeparser.canonical_type_string(name)
+        name = self._canonical_names.get(canonical_name, name)
         if name in self._types:
             if name not in self._declared:
                 return # a type that is always known
@@ -1451,34 +1454,22 @@ class TypeMatcher(object):
                                       module.get_root() is other_module.get_root()):
                     return
         self._types[name] = type_handler
+        self._canonical_names.setdefault(canonical_name, name)
         self._declared[name] = wrapper
 
     def _raw_lookup_with_alias_support(self, name):
-        already_tried = []
-        return self._raw_lookup_with_alias_support_recursive(name, already_tried)
-
-    def _raw_lookup_with_alias_support_recursive(self, name, already_tried):
         try:
             return self._types[name]
         except KeyError:
-            aliases_to_try = []
-            try:
-                aliases_to_try.append(self._type_aliases[name])
-            except KeyError:
-                pass
+            pass
+        names = [ctypeparser.canonical_type_string(name)]
+        for name in names: # note: the list grows
             try:
-                aliases_to_try.append(self._type_aliases_rev[name])
+                return self._types[self._canonical_names[name]]
             except KeyError:
-                pass
-            for alias in aliases_to_try:
-                if alias in already_tried:
-                    continue
-                already_tried.append(name)
-                #if 'Time' in name or 'Time' in alias:
-                #    import sys
-                #    print >> sys.stderr, "**** trying name %r in place of %r" % (alias, name)
-                return self._raw_lookup_with_alias_support_recursive(alias, already_tried)
-            raise KeyError
+                names.extend([alias for alias in self._type_aliases.get(name, [])
+                              if alias not in names])
+        raise KeyError
 
     def lookup(self, name):
         """
@@ -1530,10 +1521,10 @@ class TypeMatcher(object):
         return iter(self._types.items())
 
     def add_type_alias(self, from_type_name, to_type_name):
-        from_type_name_normalized = str(ctypeparser.TypeTraits(from_type_name).ctype)
-        to_type_name_normalized = str(ctypeparser.TypeTraits(to_type_name).ctype)
-        self._type_aliases[to_type_name_normalized] = from_type_name_normalized
-        self._type_aliases_rev[from_type_name_normalized] = to_type_name_normalized
+        from_type_name = ctypeparser.canonical_type_string(from_type_name)
+        to_type_name = ctypeparser.canonical_type_string(to_type_name)
+        self._type_aliases.setdefault(to_type_name, []).append(from_type_name)
+        self._type_aliases.setdefault(from_type_name, []).append(to_type_name)
 
 return_type_matcher = TypeMatcher()
 param_type_matcher = TypeMatcher()
diff --git a/pybindgen/typehandlers/ctypeparser/__init__.py b/pybindgen/typehandlers/ctypeparser/__init__.py
index 61222ab..45b0a29 100644
--- a/pybindgen/typehandlers/ctypeparser/__init__.py
+++ b/pybindgen/typehandlers/ctypeparser/__init__.py
@@ -68,6 +68,30 @@ class CType(object):
             if not reordered:
                 break
 
+    def reorder_integer_words(self):
+        """
+        Put the words of the integer types, here and in template
+        arguments, in a single order, e.g. 'int unsigned' becomes
+        'unsigned int', and 'short int' becomes 'short'.
+        """
+        for token in self.tokens:
+            if isinstance(token, CType):
+                token.reorder_integer_words()
+        names = [token.name for token in self.tokens if not isinstance(token, CType)]
+        words = [name for name in names if name in INTEGER_WORDS]
+        if not words or 'double' in names:
+            return
+        unsigned, signed = 'unsigned' in words, 'signed' in words
+        if 'char' in words:
+            words = (unsigned and ['unsigned'] or signed and ['signed'] or []) + ['char']
+        else:
+            words = (unsigned and ['unsigned'] or []) + \
+                ([word for word in words if word in ['short', 'long']] or ['int'])
+        # the words can only be at the beginning, except for modifiers
+        tokens = [token for token in self.tokens
+                  if isinstance(token, CType) or token.name not in INTEGER_WORDS]
+        self.tokens = [tokenizer.Token(tokenizer.NAME, word, None, None) for word in words] + tokens
+
     def remove_modifiers(self):
         """
         Remove modifiers from the toplevel type.  Return a set of modifiers removed.
@@ -116,7 +140,7 @@ class CType(object):
                 if token.name in "<,":
                     l.append(token.name)
                 else:
-                    if first:
+                    if first or token.name.startswith('::'):
                         l.append(token.name)
                     else:
                         l.append(' ' + token.name)
-- 
2.43.0


From 990558e5dd648f60a582f15852790ed387bf7368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 088/123] fix: do not declare types with names that the Python
 C API has (class Type, class List...)

---
 pybindgen/module.py | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/pybindgen/module.py b/pybindgen/module.py
index 3e3a3ac..d5b901a 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -178,6 +178,45 @@ class _MonolithicSinkManager(_SinkManager):
         self.code_sink.flush_to(self.final_code_sink)
 
 
+## Identifiers of the Python C API that C identifiers made out of the names
+## of types could be equal to, e.g. PyList_Type for a class List
+PYTHON_API_NAMES = '''
+    PyASCIIObject PyAsyncGenObject PyAsyncGen_Type PyAsyncMethods PyAttributeErrorObject
+    PyBaseExceptionGroupObject PyBaseExceptionObject PyBaseObject_Type PyBaseString_Type
+    PyBindGenWrapperFlags PyBool_Type PyBufferObject PyBufferProcs PyBuffer_Type
+    PyByteArrayIter_Type PyByteArrayObject PyByteArray_Type PyBytesIter_Type PyBytesObject
+    PyBytes_Type PyCFunction PyCFunctionObject PyCFunctionWithKeywords PyCFunction_Type PyCMethod
+    PyCMethodObject PyCMethod_Type PyCObject PyCObject_Type PyCallIter_Type PyCapsule_Type
+    PyCellObject PyCell_Type PyClassMethodDescr_Type PyClassMethod_Type PyClassObject PyClass_Type
+    PyCodeAddressRange PyCodeEvent PyCodeObject PyCode_Type PyCompactUnicodeObject PyCompilerFlags
+    PyComplexObject PyComplex_Type PyConfig PyContext PyContextToken PyContextToken_Type
+    PyContextVar PyContextVar_Type PyContext_Type PyCoroObject PyCoro_Type PyDateTimeAPI
+    PyDescrObject PyDictItems_Type PyDictIterItem_Type PyDictIterKey_Type PyDictIterValue_Type
+    PyDictKeysObject PyDictKeys_Type PyDictObject PyDictProxy_Type PyDictRevIterItem_Type
+    PyDictRevIterKey_Type PyDictRevIterValue_Type PyDictValues PyDictValues_Type PyDict_Type
+    PyEllipsisObject PyEllipsis_Type PyEnum_Type PyEnvironmentErrorObject PyFileObject PyFile_Type
+    PyFilter_Type PyFloatObject PyFloat_Type PyFrameConstructor PyFrameObject PyFrame_Type
+    PyFrozenSet_Type PyFunctionObject PyFunction_Type PyFutureFeatures PyGenObject PyGen_Type
+    PyGetSetDef PyGetSetDescrObject PyGetSetDescr_Type PyHeapTypeObject PyImportErrorObject
+    PyInstanceMethodObject PyInstanceMethod_Type PyInstanceObject PyInstance_Type PyIntObject
+    PyInt_Type PyInterpreterConfig PyInterpreterState PyListIter_Type PyListObject
+    PyListRevIter_Type PyList_Type PyLockStatus PyLongObject PyLongRangeIter_Type PyLong_Type
+    PyMap_Type PyMappingMethods PyMemAllocatorDomain PyMemAllocatorEx PyMemAllocatorName PyMemberDef
+    PyMemberDescrObject PyMemberDescr_Type PyMemoryViewObject PyMemoryView_Type PyMethodDef
+    PyMethodDescrObject PyMethodDescr_Type PyMethodObject PyMethod_Type PyModuleDef PyModuleDef_Type
+    PyModule_Type PyNameErrorObject PyNumberMethods PyODictItems_Type PyODictIter_Type
+    PyODictKeys_Type PyODictObject PyODictValues_Type PyODict_Type PyOSErrorObject PyObject
+    PyObjectArenaAllocator PyObject_Type PyPickleBuffer_Type PyPreConfig PyProperty_Type
+    PyRangeIter_Type PyRange_Type PyReversed_Type PySendResult PySeqIter_Type PySequenceMethods
+    PySetIter_Type PySetObject PySet_Type PySliceObject PySlice_Type PyStaticMethod_Type PyStatus
+    PyStdPrinter_Type PyStopIterationObject PyStringObject PyString_Type PyStructSequence
+    PySuper_Type PySyntaxErrorObject PySystemExitObject PyThreadState PyTraceBack_Type
+    PyTracebackObject PyTupleIter_Type PyTupleObject PyTuple_Type PyTypeObject PyType_Type
+    PyUnicodeErrorObject PyUnicodeIter_Type PyUnicodeObject PyUnicode_Type PyVarObject
+    PyWeakReference PyWideStringList PyWrapperDescrObject PyWrapperDescr_Type PyZip_Type
+'''.split()
+
+
 class ModuleBase(dict):
     """
     ModuleBase objects can be indexed dictionary style to access contained types.  Example::
@@ -257,7 +296,7 @@ class ModuleBase(dict):
         self.c_function_name_transformer = None
         self.set_strip_prefix(name + '_')
         if parent is None:
-            self._unique_names = {} # C name => owner
+            self._unique_names = dict.fromkeys(PYTHON_API_NAMES, 'Python') # C name => owner
             self.header = MemoryCodeSink()
             self.body = MemoryCodeSink()
             self.one_time_definitions = {}
-- 
2.43.0


From f1b036c67d44045465d3df43e076d8103389efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 089/123] fix: names of parameters that hide variables, types
 or functions that wrappers use

---
 pybindgen/cppmethod.py         | 20 +++++++
 pybindgen/function.py          |  3 ++
 pybindgen/typehandlers/base.py | 99 +++++++++++++++++++++++++++-------
 3 files changed, 103 insertions(+), 19 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 9a7dfc0..6f51f7f 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -241,6 +241,12 @@ class CppMethod(ForwardWrapperBase):
         return self._class
     class_ = property(get_class, set_class)
 
+    def get_names_in_use(self):
+        names = super(CppMethod, self).get_names_in_use()
+        if self.class_ is not None:
+            names.append(self.class_.full_name)
+        return names
+
     def generate_call(self, class_=None):
         "virtual method implementation; do not call"
         #assert isinstance(class_, CppClass)
@@ -653,6 +659,12 @@ class CppConstructor(ForwardWrapperBase):
         return self._class
     class_ = property(get_class, set_class)
 
+    def get_names_in_use(self):
+        names = super(CppConstructor, self).get_names_in_use()
+        if self.class_ is not None:
+            names.append(self.class_.full_name)
+        return names
+
     def generate_call(self, class_=None):
         "virtual method implementation; do not call"
         if class_ is None:
@@ -1047,6 +1059,13 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
     helper_class = property(get_helper_class, set_helper_class)
 
 
+    def get_names_in_use(self):
+        names = super(CppVirtualMethodProxy, self).get_names_in_use()
+        names.append(self.class_.full_name)
+        if self._helper_class is not None:
+            names.append(self._helper_class.class_.full_name)
+        return names
+
     def generate_python_call(self):
         """code to call the python method"""
         if settings._get_deprecated_virtuals():
@@ -1094,6 +1113,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
 
         ## if the python subclass doesn't define a virtual method,
         ## just chain to parent class and don't do anything else
+        self.name_parameters()
         call_params = ', '.join([param.name for param in self.parameters])
         py_method = self.declarations.declare_variable('PyObject*', 'py_method')
         if settings._get_deprecated_virtuals():
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 62f7a79..947de70 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -188,6 +188,9 @@ class Function(ForwardWrapperBase):
             "_wrap_%s_%s" % (module.prefix, self.mangled_name), (module.prefix, self.mangled_name))
     module = property(get_module, set_module)
 
+    def get_names_in_use(self):
+        return super(Function, self).get_names_in_use() + [self.function_name]
+
     def generate_call(self):
         "virtual method implementation; do not call"
         if self.foreign_cpp_namespace:
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 36b520e..46f07f6 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -9,6 +9,8 @@ and base interfaces for wrapper generators.
 from pybindgen.typehandlers import codesink
 import warnings
 from pybindgen.typehandlers import ctypeparser
+import copy
+import re
 import sys
 
 PY3 = (sys.version_info[0] >= 3)
@@ -423,6 +425,23 @@ class BuildValueParameters(object):
         return [cleanup for (dummy, dummy, cleanup) in self._build_value_items]
 
 
+def get_names_in_use(return_value, parameters):
+    """
+    Get a list of C++ expressions that the wrapper of a function with
+    the given return value and parameters may have to use.
+    """
+    names = []
+    for handler in [return_value] + list(parameters):
+        if handler is None:
+            continue
+        names.append(str(handler.type_traits.ctype))
+        names.append(str(handler.untransformed_ctype))
+        default_value = getattr(handler, 'default_value', None)
+        if default_value is not None:
+            names.append(re.sub(r'"(\\.|[^"\\])*"', '', str(default_value)))
+    return names
+
+
 class DeclarationsScope(object):
     """Manages variable declarations in a given scope."""
 
@@ -475,16 +494,7 @@ class DeclarationsScope(object):
         :param initializer: optional, value to initialize the variable with
         :param array: optional, array size specifiction, e.g. '[]', or '[100]'
         """
-        try:
-            num = self.declared_variables[name]
-        except KeyError:
-            num = 0
-        num += 1
-        self.declared_variables[name] = num
-        if num == 1:
-            varname = name
-        else:
-            varname = "%s%i" % (name, num)
+        varname = self.reserve_variable(name)
         decl = join_ctype_and_name(type_, varname)
         if array is not None:
             decl += array
@@ -499,18 +509,27 @@ class DeclarationsScope(object):
         :param name: base name of the variable; actual name used can be
                 slightly different in case of name conflict.
         """
-        try:
-            num = self.declared_variables[name]
-        except KeyError:
-            num = 0
-        num += 1
-        self.declared_variables[name] = num
-        if num == 1:
-            varname = name
-        else:
+        num = self.declared_variables.get(name, 0)
+        varname = name
+        while varname in self.declared_variables:
+            num = max(num, 1) + 1
             varname = "%s%i" % (name, num)
+        self.declared_variables[varname] = 1
+        self.declared_variables[name] = max(num, 1)
         return varname
 
+    def reserve_names(self, names, exceptions=()):
+        """Keep variables from being declared with the given names,
+        or their parts, because they mean something else.
+
+        :param names: C++ expressions, that contain the names
+        :param exceptions: identifiers that variables will have anyway
+        """
+        for name in names:
+            for identifier in re.findall(r'[A-Za-z_]\w*', name or ''):
+                if identifier not in exceptions:
+                    self.declared_variables.setdefault(identifier, 1)
+
     def get_code_sink(self):
         """Returns the internal MemoryCodeSink that holds all declararions."""
         return self._declarations
@@ -576,6 +595,7 @@ class ReverseWrapperBase(object):
                                     predecessor=self.before_call)
         self.build_params = BuildValueParameters()
         self.parse_params = ParseTupleParameters()
+        self._parameters_named = False
         self._generate_gil_code()
 
     def set_error_return(self, error_return):
@@ -589,8 +609,33 @@ class ReverseWrapperBase(object):
         self.after_call.clear()
         self.build_params.clear()
         self.parse_params.clear()
+        self._parameters_named = False
         self._generate_gil_code()
 
+    def get_names_in_use(self):
+        """Get a list of the C++ expressions that the wrapper may have to use"""
+        return get_names_in_use(self.return_value, self.parameters)
+
+    def name_parameters(self):
+        """
+        Change the names of the parameters that would hide something else
+        in the function that is to be generated.  (These names are not
+        visible from Python.)
+        """
+        if self._parameters_named:
+            return
+        self._parameters_named = True
+        names = DeclarationsScope()
+        names.reserve_names(['py_retval', 'retval', 'm_pyself'])
+        names.reserve_names(self.get_names_in_use())
+        names.reserve_names(list(self.declarations.declared_variables))
+        self.declarations.reserve_names(self.get_names_in_use(), ['py_retval', 'retval'])
+        self.parameters = [copy.copy(param) for param in self.parameters]
+        for param in self.parameters:
+            name = names.reserve_variable(param.name)
+            param.name = param.value = name
+            self.declarations.reserve_names([name])
+
     def _generate_gil_code(self):
         if self.NO_GIL_LOCKING:
             return
@@ -626,6 +671,7 @@ class ReverseWrapperBase(object):
 
         #import sys
         #print("generate", self, file=sys.stderr)
+        self.name_parameters()
         py_retval = self.declarations.declare_variable('PyObject*', 'py_retval')
         assert py_retval == "py_retval", "py_retval already declared: "\
           "generating the same wrapper twice without a reset() in between?"
@@ -810,10 +856,22 @@ class ForwardWrapperBase(object):
             and not self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR
             and not self.return_value.NO_RETVAL_DECL):
             self.declarations.declare_variable(str(self.return_value.type_traits.ctype_no_const_no_ref), 'retval')
+        elif self.return_value is not None and self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
+            self.declarations.reserve_variable('retval') # declared later
 
         self.declarations.reserve_variable('args')
         self.declarations.reserve_variable('kwargs')
 
+    ## names that mean something in all wrappers, or most of them
+    FIXED_NAMES = ['py_retval', 'retval', 'args', 'kwargs', '_args', '_kwargs', 'self', '_self',
+                   'return_exception', 'exc']
+
+    def get_names_in_use(self):
+        """Get a list of the C++ expressions that the wrapper may have to use"""
+        names = get_names_in_use(self.return_value, self.parameters)
+        names.extend([exc.full_name for exc in getattr(self, 'throw', ())])
+        return names
+
     def reset_code_generation_state(self):
         self.declarations.clear()
         self.before_parse.clear()
@@ -911,6 +969,9 @@ class ForwardWrapperBase(object):
         code_sink -- a CodeSink object that will receive the code
         """
 
+        self.declarations.reserve_names(self.FIXED_NAMES)
+        self.declarations.reserve_names(self.get_names_in_use())
+
         if self.unblock_threads:
             py_thread_state = self.declarations.declare_variable("PyThreadState*", "py_thread_state", "NULL")
             self.py_thread_state = py_thread_state
-- 
2.43.0


From 352ba5ed47d1f8225093489ec99377708d696db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 090/123] fix: functions with names of variables of their
 wrappers

---
 pybindgen/function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/function.py b/pybindgen/function.py
index 947de70..dd5a50e 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -197,6 +197,8 @@ class Function(ForwardWrapperBase):
             namespace = self.foreign_cpp_namespace + '::'
         elif self._module.cpp_namespace_prefix:
             namespace = self._module.cpp_namespace_prefix + '::'
+        elif self.function_name in self.FIXED_NAMES:
+            namespace = '::'
         else:
             namespace = ''
 
-- 
2.43.0


From ecd2557f559070e07412accaea226a5ec2854d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 091/123] fix: constructor parameters of helper classes that
 hide the class or each other

---
 pybindgen/cppclass.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9ed46bc..b8d8dec 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -385,13 +385,17 @@ class CppHelperClass(object):
                     continue
                 implemented_constructor_signatures.append(signature)
 
-                params = [join_ctype_and_name(param.ctype, param.name)
-                          for param in cons.parameters]
+                scope = DeclarationsScope()
+                scope.reserve_names(['m_pyself', self.class_.full_name])
+                scope.reserve_names([str(param.ctype) for param in cons.parameters])
+                names = [scope.reserve_variable(param.name) for param in cons.parameters]
+                params = [join_ctype_and_name(param.ctype, name)
+                          for param, name in zip(cons.parameters, names)]
                 code_sink.writeln("%s(%s)" % (self.name, ', '.join(params)))
                 code_sink.indent()
                 code_sink.writeln(": %s(%s), m_pyself(NULL)\n{}" %
                                   (self.class_.full_name,
-                                   ', '.join([param.name for param in cons.parameters])))
+                                   ', '.join(names)))
                 code_sink.unindent()
                 code_sink.writeln()
 
-- 
2.43.0


From 41ae0b5e74ee91d09b3db7fed1d9ca93cd193224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 092/123] fix: values returned as containers that have the
 names of parameters

---
 pybindgen/container.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 4383247..c8ef4ab 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -10,7 +10,6 @@ from .typehandlers.base import ForwardWrapperBase, ReverseWrapperBase, \
 
 from pybindgen.typehandlers import codesink
 from pybindgen.pytypeobject import PyTypeObject
-from .typehandlers.ctypeparser import TypeTraits
 from . import settings
 from . import utils
 
@@ -741,11 +740,11 @@ class ContainerRefParameter(ContainerParameterBase):
             wrapper.before_call.write_code(
                 "%s = PyObject_New(%s, %s);" %
                 (self.py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
-            wrapper.before_call.write_code("%s->obj = new %s(%s);" % (self.py_name, self.container_type.full_name, self.name))
+            wrapper.before_call.write_code("%s->obj = new %s(%s);" % (self.py_name, self.container_type.full_name, self.value))
             wrapper.build_params.add_parameter("N", [self.py_name])
 
         if self.direction & Parameter.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.name], self.name)
+            wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value], self.name)
 
 
 class ContainerPtrParameter(ContainerParameterBase):
@@ -814,7 +813,6 @@ class ContainerReturnValue(ContainerReturnValueBase):
     "Container type return handlers"
     CTYPES = []
 
-    NO_RETVAL_DECL = True
     container_type = _get_dummy_container()
 
     def __init__(self, ctype, is_const=False):
@@ -829,20 +827,9 @@ class ContainerReturnValue(ContainerReturnValueBase):
         """See ReturnValue.get_c_error_return"""
         return "return %s();" % (self.container_type.full_name,)
 
-    def _get_noref_ctype(self):
-        # if the type has foo const &, get back foo
-        traits = TypeTraits(str(self.type_traits.ctype_no_const_no_ref))
-        ctype_no_const_no_ref = traits.ctype_no_const_no_ref
-        return ctype_no_const_no_ref
-
     def convert_c_to_python(self, wrapper):
         """see ReturnValue.convert_c_to_python"""
 
-        ctype_no_const_no_ref = self._get_noref_ctype()
-        retval = wrapper.declarations.declare_variable(
-            str(ctype_no_const_no_ref), 'retval')
-        assert retval == 'retval'
-
         py_name = wrapper.declarations.declare_variable(
             self.container_type.pystruct+'*', 'py_'+self.container_type.name)
 
@@ -858,8 +845,6 @@ class ContainerReturnValue(ContainerReturnValueBase):
         """see ReturnValue.convert_python_to_c"""
         if '&' in self.ctype:
             raise NotSupportedError("reference return type not supported")
-        retval = wrapper.declarations.declare_variable(self.ctype, 'retval')
-        assert retval == 'retval'
         wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value], prepend=True)
 
 
-- 
2.43.0


From 0a87e359680e66253dc7124174dc8cb8a288f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 093/123] fix: initialize submodules before the classes that
 derive from their classes

---
 pybindgen/module.py | 71 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/pybindgen/module.py b/pybindgen/module.py
index d5b901a..89989e8 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -309,6 +309,7 @@ class ModuleBase(dict):
             self.includes = parent.includes
 
         self._current_section = '__main__'
+        self._registered_submodules = []
 
     def get_unique_name(self, name, owner, formats=("%s",)):
         """
@@ -734,6 +735,59 @@ class ModuleBase(dict):
             parent = parent.parent
         return names
 
+    def _register_submodule(self, submodule):
+        """(internal) Generates the code that initializes a submodule, unless that was done already."""
+        if [other for other in self._registered_submodules if other is submodule]:
+            return
+        if not self._registered_submodules:
+            self.declarations.declare_variable('PyObject*', 'submodule')
+        self._registered_submodules.append(submodule)
+        submodule_var = 'submodule'
+        self.after_init.write_code('%s = %s();' % (
+                submodule_var, submodule.init_function_name))
+        self.after_init.write_error_check('%s == NULL' % submodule_var)
+        self.after_init.write_code('#if PY_VERSION_HEX >= 0x03000000')
+        self.after_init.write_error_check(
+            'PyDict_SetItemString(PyImport_GetModuleDict(), (char *) "%s", %s)'
+            % ('.'.join(submodule.get_module_path()), submodule_var),
+            'Py_DECREF(%s);' % (submodule_var,))
+        self.after_init.write_code('#else')
+        self.after_init.write_code('Py_INCREF(%s);' % (submodule_var,))
+        self.after_init.write_code('#endif')
+        self.after_init.write_code('PyModule_AddObject(m, (char *) "%s", %s);'
+                                   % (submodule.name, submodule_var,))
+
+    def _register_submodules_of_bases(self, class_):
+        """
+        (internal) Generates the code that initializes the submodules
+        that contain bases of a class of this module, before the class
+        itself is registered.
+        """
+        def get_bases(cls):
+            bases = []
+            for base in cls.bases:
+                bases.append(base)
+                bases.extend(get_bases(base))
+            return bases
+        pending = self.classes[self.classes.index(class_):]
+        for base in get_bases(class_):
+            module = base.module
+            while module is not None and module.parent is not self:
+                module = module.parent
+            if module is None:
+                continue
+            ## not if the submodule has to wait for classes of this module
+            if [c for c in module.get_all_classes() for b in get_bases(c) if b in pending]:
+                continue
+            self._register_submodule(module)
+
+    def get_all_classes(self):
+        """(internal) Get the classes of the module and of all its submodules."""
+        classes = list(self.classes)
+        for submodule in self.submodules:
+            classes.extend(submodule.get_all_classes())
+        return classes
+
     def do_generate(self, out, module_file_base_name=None):
         """(internal) Generates the module."""
         assert isinstance(out, _SinkManager)
@@ -824,6 +878,7 @@ class ModuleBase(dict):
             for class_ in [c for c in self.classes if not c.import_from_module]:
                 sink, header_sink = out.get_code_sink_for_wrapper(class_)
                 sink.writeln()
+                self._register_submodules_of_bases(class_)
                 class_.generate(sink, self)
                 sink.writeln()
 
@@ -865,22 +920,8 @@ class ModuleBase(dict):
                 sink.writeln()
 
         ## register the submodules
-        if self.submodules:
-            submodule_var = self.declarations.declare_variable('PyObject*', 'submodule')
         for submodule in self.submodules:
-            self.after_init.write_code('%s = %s();' % (
-                    submodule_var, submodule.init_function_name))
-            self.after_init.write_error_check('%s == NULL' % submodule_var)
-            self.after_init.write_code('#if PY_VERSION_HEX >= 0x03000000')
-            self.after_init.write_error_check(
-                'PyDict_SetItemString(PyImport_GetModuleDict(), (char *) "%s", %s)'
-                % ('.'.join(submodule.get_module_path()), submodule_var),
-                'Py_DECREF(%s);' % (submodule_var,))
-            self.after_init.write_code('#else')
-            self.after_init.write_code('Py_INCREF(%s);' % (submodule_var,))
-            self.after_init.write_code('#endif')
-            self.after_init.write_code('PyModule_AddObject(m, (char *) "%s", %s);'
-                                       % (submodule.name, submodule_var,))
+            self._register_submodule(submodule)
 
         ## flush the header section
         self.header.flush_to(out.get_includes_code_sink())
-- 
2.43.0


From 376db485f1411baafa9d057a17b7989aa9fd92a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 094/123] fix: recognize the Python subclasses of other modules
 when their instances are returned

---
 pybindgen/cppclass.py               | 6 +++---
 pybindgen/typehandlers/smart_ptr.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index b8d8dec..233d0f3 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2578,7 +2578,7 @@ static void
                     peekref_code = " && %s(self->obj) == 1" % self.memory_policy.peekref_function
             visit_self = '''
     if (self->obj && !(self->flags & PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)
-        && typeid(*self->obj).name() == typeid(%s).name() %s)
+        && typeid(*self->obj) == typeid(%s) %s)
         Py_VISIT((PyObject *) self);
 ''' % (self.helper_class.name, peekref_code)
 
@@ -2957,7 +2957,7 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
     else:
         # since there is a helper class, check if this C++ object is an instance of that class
         # http://stackoverflow.com/questions/579887/how-expensive-is-rtti/1468564#1468564
-        code_block.write_code("if (typeid(%s).name() == typeid(%s).name())\n{"
+        code_block.write_code("if (typeid(%s) == typeid(%s))\n{"
                               % (value_value, cpp_class.helper_class.name))
         code_block.indent()
 
@@ -3760,7 +3760,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                     wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
         else:
-            wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
+            wrapper.before_call.write_code("if (typeid(*(%s)) == typeid(%s))\n{"
                                           % (value, self.cpp_class.helper_class.name))
             wrapper.before_call.indent()
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index f704551..38d2f96 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -259,7 +259,7 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
         else:
-            wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
+            wrapper.before_call.write_code("if (typeid(*(%s)) == typeid(%s))\n{"
                                           % (value, self.cpp_class.helper_class.name))
             wrapper.before_call.indent()
 
-- 
2.43.0


From f72b93ae51cb18bb9090bace872b022729216f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 095/123] fix: classes imported with type narrowing and a
 wrapper registry

---
 pybindgen/cppclass.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 233d0f3..4ceaa11 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1936,14 +1936,14 @@ typedef struct {
         if self.typeid_map_name is not None:
             code_sink.writeln("pybindgen::TypeMap *_%s;" % self.typeid_map_name)
             module.after_init.write_code("/* Import the %r class type map from module %r */" % (self.full_name, self.import_from_module))
-            module.after_init.write_code("PyObject *_cobj = PyObject_GetAttrString(module, (char*) \"_%s\");"
+            module.after_init.write_code("PyObject *_typeid_map = PyObject_GetAttrString(module, (char*) \"_%s\");"
                                          % (self.typeid_map_name))
-            module.after_init.write_code("if (_cobj == NULL) {\n"
+            module.after_init.write_code("if (_typeid_map == NULL) {\n"
                                          "    _%s = new pybindgen::TypeMap;\n"
                                          "    PyErr_Clear();\n"
                                          "} else {\n"
-                                         "    _%s = reinterpret_cast<pybindgen::TypeMap*> (PyCObject_AsVoidPtr (_cobj));\n"
-                                         "    Py_DECREF(_cobj);\n"
+                                         "    _%s = reinterpret_cast<pybindgen::TypeMap*> (PyCObject_AsVoidPtr (_typeid_map));\n"
+                                         "    Py_DECREF(_typeid_map);\n"
                                          "}"
                                          % (self.typeid_map_name, self.typeid_map_name))
 
-- 
2.43.0


From 1eec8bc89ba244d2ead0eac677d140adaccc34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 096/123] fix: raise an error if an imported class does not
 exist, and find nested and renamed classes

---
 pybindgen/cppclass.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 4ceaa11..3f15b4e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1919,7 +1919,7 @@ typedef struct {
         if ' named ' in self.import_from_module:
             module_name, type_name = self.import_from_module.split(" named ")
         else:
-            module_name, type_name = self.import_from_module, self.name
+            module_name, type_name = self.import_from_module, self.get_python_name()
         code_sink.writeln("PyTypeObject *_%s;" % self.pytypestruct)
         module.after_init.write_code("/* Import the %r class from module %r */" % (self.full_name, self.import_from_module))
         module.after_init.write_code("{"); module.after_init.indent()
@@ -1929,9 +1929,20 @@ typedef struct {
             "    return %s;\n"
             "}" % (error_retcode,))
 
-        module.after_init.write_code("_%s = (PyTypeObject*) PyObject_GetAttrString(module, (char*) \"%s\");\n"
-                                     % (self.pytypestruct, self.get_python_name()))
-        module.after_init.write_code("if (PyErr_Occurred()) PyErr_Clear();")
+        if self.outer_class is None:
+            container = "module"
+        else:
+            container = "(PyObject *) &%s" % self.outer_class.pytypestruct
+        module.after_init.write_code("_%s = (PyTypeObject*) PyObject_GetAttrString(%s, (char*) \"%s\");\n"
+                                     % (self.pytypestruct, container, type_name))
+        module.after_init.write_code(
+            "if (_%(TYPE)s == NULL) {\n"
+            "    return %(ERROR)s;\n"
+            "}\n"
+            "if (!PyType_Check((PyObject *) _%(TYPE)s)) {\n"
+            "    PyErr_SetString(PyExc_TypeError, \"%(MODULE)s.%(NAME)s is not a type\");\n"
+            "    return %(ERROR)s;\n"
+            "}" % dict(TYPE=self.pytypestruct, ERROR=error_retcode, MODULE=module_name, NAME=type_name))
 
         if self.typeid_map_name is not None:
             code_sink.writeln("pybindgen::TypeMap *_%s;" % self.typeid_map_name)
-- 
2.43.0


From 4f4bc3fed327a581ed05f076eb72b59b68fd485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 097/123] fix: free_after_copy works for methods

---
 pybindgen/typehandlers/stringtype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index d672653..089670b 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -233,7 +233,8 @@ class CStringReturn(PointerReturnValue):
         wrapper.build_params.add_parameter("s", [self.value], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("free(retval);")
-            wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, wrapper.function_name))
+            function_name = getattr(wrapper, 'function_name', None) or getattr(wrapper, 'method_name', None)
+            wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, function_name))
 
 
 class StdStringReturn(ReturnValue):
-- 
2.43.0


From 82f72a176006f1a3278b0ded6573b293946699de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 098/123] fix: what is given to the callee is only given when
 nothing can fail any more

---
 pybindgen/cppclass.py                  | 10 +++++-----
 pybindgen/typehandlers/base.py         |  6 ++++++
 pybindgen/typehandlers/pyobjecttype.py |  2 +-
 pybindgen/typehandlers/stringtype.py   |  7 +++++--
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 3f15b4e..480074c 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3651,11 +3651,11 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
-                wrapper.before_call.write_code("if (%s) {" % have_object)
-                wrapper.before_call.indent()
-                self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
-                wrapper.before_call.unindent()
-                wrapper.before_call.write_code("}")
+                wrapper.transfer_code.write_code("if (%s) {" % have_object)
+                wrapper.transfer_code.indent()
+                self.cpp_class.memory_policy.write_incref(wrapper.transfer_code, "%s->obj" % self.py_name)
+                wrapper.transfer_code.unindent()
+                wrapper.transfer_code.write_code("}")
 
 
     def convert_c_to_python(self, wrapper):
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 46f07f6..658025e 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -828,6 +828,8 @@ class ForwardWrapperBase(object):
         self.before_parse = CodeBlock(parse_error_return, self.declarations)
         self.before_call = CodeBlock(parse_error_return, self.declarations,
                                      predecessor=self.before_parse)
+        # goes at the end of before_call
+        self.transfer_code = CodeBlock(parse_error_return, self.declarations)
         self.after_call = CodeBlock(error_return, self.declarations,
                                     predecessor=self.before_call)
         self.build_params = BuildValueParameters()
@@ -880,6 +882,7 @@ class ForwardWrapperBase(object):
         self.build_params.clear()
         self.parse_params.clear()
         self.call_params = []
+        self.transfer_code.clear()
         self.meth_flags = []
 
         self._init_code_generation_state()
@@ -997,6 +1000,9 @@ class ForwardWrapperBase(object):
 
         self._before_call_hook()
 
+        # nothing can fail any more: give away what the callee is to own
+        self.transfer_code.sink.flush_to(self.before_call.sink)
+
         if self.unblock_threads:
             self.before_call.write_code(
                 "\nif (PyEval_ThreadsInitialized ())\n"
diff --git a/pybindgen/typehandlers/pyobjecttype.py b/pybindgen/typehandlers/pyobjecttype.py
index 16eb2d9..6ae51e8 100644
--- a/pybindgen/typehandlers/pyobjecttype.py
+++ b/pybindgen/typehandlers/pyobjecttype.py
@@ -35,7 +35,7 @@ class PyObjectParam(Parameter):
         wrapper.parse_params.add_parameter('O', ['&'+name], self.name)
         wrapper.call_params.append(name)
         if self.transfer_ownership:
-            wrapper.before_call.write_code("Py_INCREF((PyObject*) %s);" % name)
+            wrapper.transfer_code.write_code("Py_INCREF((PyObject*) %s);" % name)
 
 
 class PyObjectReturnValue(ReturnValue):
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index 089670b..62fa4fe 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -174,17 +174,20 @@ class StdStringPtrParam(PointerParameter):
         name = wrapper.declarations.declare_variable("const char *", self.name)
         name_len = wrapper.declarations.declare_variable("Py_ssize_t", self.name+'_len')
         if self.transfer_ownership:
-            name_std = wrapper.declarations.declare_variable("std::string*", self.name + '_std', 'new std::string')
+            name_std = wrapper.declarations.declare_variable("std::string*", self.name + '_std')
+            wrapper.transfer_code.write_code('%s = new std::string;' % name_std)
             wrapper.call_params.append('%s' % name_std)
             name_std_value = '*' + name_std
+            code_block = wrapper.transfer_code
         else:
             name_std = wrapper.declarations.declare_variable("std::string", self.name + '_std')
             wrapper.call_params.append('&%s' % name_std)
             name_std_value = name_std
+            code_block = wrapper.before_call
 
         if self.direction & Parameter.DIRECTION_IN:
             wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value)
-            wrapper.before_call.write_code('%s = std::string(%s, %s);' %
+            code_block.write_code('%s = std::string(%s, %s);' %
                                            (name_std_value, name, name_len))
 
         if self.direction & Parameter.DIRECTION_OUT:
-- 
2.43.0


From 1c2b416dcdd6021d2f615ef0a9682622b61785ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 099/123] fix: free the buffers of Glib::ustring parameters and
 results

---
 pybindgen/typehandlers/stringtype.py | 57 +++++++++++++++++-----------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index 62fa4fe..e68a8fa 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -276,6 +276,23 @@ class StdStringRefReturn(ReturnValue):
                                            prepend=True)
 
 
+def _parse_glib_string(wrapper, code_block, param, default_value=None):
+    """
+    Parse a string in the UTF-8 encoding; returns a C expression (const
+    char *) which is NULL if the parameter has a default value and was
+    not given.  Being allocated by Python, the buffer is freed in the end.
+    """
+    py_str = wrapper.declarations.declare_variable("PyObject*", "py_" + param.name, "NULL")
+    buf = wrapper.declarations.declare_variable("char *", param.name, "NULL")
+    wrapper.parse_params.add_parameter('O', ['&' + py_str], param.value, optional=(default_value is not None))
+    check = '!PyArg_Parse(%s, (char *) "et", "utf-8", &%s)' % (py_str, buf)
+    if default_value is not None:
+        check = '%s && %s' % (py_str, check)
+    code_block.write_error_check(check)
+    code_block.add_cleanup_code('PyMem_Free(%s);' % buf)
+    return buf
+
+
 class GlibStringParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN]
@@ -293,13 +310,10 @@ class GlibStringParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
+        name = _parse_glib_string(wrapper, wrapper.before_call, self, self.default_value)
         if self.default_value is None:
-            name = wrapper.declarations.declare_variable("const char *", self.name)
-            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value)
             wrapper.call_params.append('Glib::ustring(%s)' % (name))
         else:
-            name = wrapper.declarations.declare_variable("const char *", self.name, 'NULL')
-            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value, optional=True)
             wrapper.call_params.append('(%s ? Glib::ustring(%s) : %s)'
                                        % (name, name, self.default_value))
 
@@ -325,21 +339,17 @@ class GlibStringRefParam(Parameter):
             wrapper.build_params.add_parameter('s#', [ptr, len_])
 
         if self.direction & Parameter.DIRECTION_OUT:
-            if ptr is None:
-                ptr = wrapper.declarations.declare_variable("const char *", self.name + "_ptr")
-            wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], self.value)
+            buf = _parse_glib_string(wrapper, wrapper.after_call, self)
             wrapper.after_call.write_code(
-                "%s = Glib::ustring(%s);" % (self.value, ptr))
+                "%s = Glib::ustring(%s);" % (self.value, buf))
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable("const char *", self.name, "NULL")
         name_std = wrapper.declarations.declare_variable("Glib::ustring", self.name + '_std')
         wrapper.call_params.append(name_std)
 
         if self.direction & Parameter.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value,
-                                               optional=(self.default_value is not None))
+            name = _parse_glib_string(wrapper, wrapper.before_call, self, self.default_value)
             if self.default_value is None:
                 wrapper.before_call.write_code('%s = Glib::ustring(%s);' %
                                                (name_std, name))
@@ -375,11 +385,9 @@ class GlibStringPtrParam(PointerParameter):
             wrapper.build_params.add_parameter('s#', [ptr, len_])
 
         if self.direction & Parameter.DIRECTION_OUT:
-            if ptr is None:
-                ptr = wrapper.declarations.declare_variable("const char *", self.name + "_ptr")
-            wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], self.value)
+            buf = _parse_glib_string(wrapper, wrapper.after_call, self)
             wrapper.after_call.write_code(
-                "*%s = Glib::ustring(%s);" % (self.value, ptr))
+                "*%s = Glib::ustring(%s);" % (self.value, buf))
         if self.transfer_ownership:
             wrapper.after_call.write_code("delete %s;" % (self.value,))
 
@@ -387,19 +395,21 @@ class GlibStringPtrParam(PointerParameter):
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
         assert self.default_value is None, "default_value not implemented yet"
-        name = wrapper.declarations.declare_variable("const char *", self.name)
         if self.transfer_ownership:
-            name_std = wrapper.declarations.declare_variable("Glib::ustring*", self.name + '_std', 'new Glib::ustring')
+            name_std = wrapper.declarations.declare_variable("Glib::ustring*", self.name + '_std')
+            wrapper.transfer_code.write_code('%s = new Glib::ustring;' % name_std)
             wrapper.call_params.append('%s' % name_std)
             name_std_value = '*' + name_std
+            code_block = wrapper.transfer_code
         else:
             name_std = wrapper.declarations.declare_variable("Glib::ustring", self.name + '_std')
             wrapper.call_params.append('&%s' % name_std)
             name_std_value = name_std
+            code_block = wrapper.before_call
 
         if self.direction & Parameter.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value)
-            wrapper.before_call.write_code('%s = Glib::ustring(%s);' %
+            name = _parse_glib_string(wrapper, wrapper.before_call, self)
+            code_block.write_code('%s = Glib::ustring(%s);' %
                                            (name_std_value, name))
 
         if self.direction & Parameter.DIRECTION_OUT:
@@ -414,10 +424,13 @@ class GlibStringReturn(ReturnValue):
         return "return Glib::ustring();"
 
     def convert_python_to_c(self, wrapper):
-        ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
-        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], prepend=True)
+        py_str = wrapper.declarations.declare_variable("PyObject *", "retval_str", "NULL")
+        ptr = wrapper.declarations.declare_variable("char *", "retval_ptr", "NULL")
+        wrapper.parse_params.add_parameter("O", ['&'+py_str], prepend=True)
+        wrapper.after_call.write_error_check('!PyArg_Parse(%s, (char *) "et", "utf-8", &%s)' % (py_str, ptr))
         wrapper.after_call.write_code(
-            "%s = Glib::ustring(%s);" % (self.value, ptr))
+            "%s = Glib::ustring(%s);\n"
+            "PyMem_Free(%s);" % (self.value, ptr, ptr))
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter("s#", ['(%s).c_str()' % self.value,
-- 
2.43.0


From 06f2ba07b2273184118431897ea7e463fdd010b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 100/123] fix: optional int pointer parameters with a result
 compile in Python 3

---
 pybindgen/typehandlers/inttype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 104059a..06b8c9f 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -192,7 +192,7 @@ class IntPtrParam(PointerParameter):
             if self.direction & self.DIRECTION_OUT:
                 wrapper.after_call.write_code(
                     "if (%(name_obj)s) {\n"
-                    "    %(name_obj)s = PyInt_FromLong(%(name_int)s);\n"
+                    "    %(name_obj)s = PyLong_FromLong(%(name_int)s);\n"
                     "} else {\n"
                     "    %(name_obj)s = Py_None;\n"
                     "    Py_INCREF(%(name_obj)s);\n"
-- 
2.43.0


From b9799f22e66057ebef8811b8d162c8e4cf11d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 101/123] fix: release the result of an override when an output
 value is not accepted

---
 pybindgen/cppmethod.py         | 6 +++++-
 pybindgen/typehandlers/base.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 6f51f7f..d3a56eb 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1083,7 +1083,6 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
             ## the parent method cannot be given them a second time.
             self.set_error_return(self.return_value.get_c_error_return())
         self.before_call.write_error_check('py_retval == NULL', failure_cleanup='PyErr_Print();')
-        self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
 
     def generate_declaration(self, code_sink):
         if self.method.is_const:
@@ -1175,6 +1174,11 @@ Py_FatalError("Error detected, but parent virtual is pure virtual or private vir
         self.before_call.add_cleanup_code("reinterpret_cast< %s* >(m_pyself)->obj = %s;" %
                                           (wrapper_class.pystruct, self_obj_before))
 
+        ## the checks that the parameters add to after_call run after the call
+        self.before_call.add_cleanup_code('Py_XDECREF(py_retval);')
+        if any(getattr(param, 'transfer_ownership', False) for param in self.parameters):
+            self.after_call.error_return = self.return_value.get_c_error_return()
+
         super(CppVirtualMethodProxy, self).generate(
             code_sink, '::'.join((self._helper_class.name, self.method_name)),
             decl_modifiers=[],
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 658025e..aa066db 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -672,7 +672,7 @@ class ReverseWrapperBase(object):
         #import sys
         #print("generate", self, file=sys.stderr)
         self.name_parameters()
-        py_retval = self.declarations.declare_variable('PyObject*', 'py_retval')
+        py_retval = self.declarations.declare_variable('PyObject*', 'py_retval', 'NULL')
         assert py_retval == "py_retval", "py_retval already declared: "\
           "generating the same wrapper twice without a reset() in between?"
 
-- 
2.43.0


From 35ae33bedc991d5919c0702fde167189b809f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 102/123] fix: calling __init__ again releases the previous C++
 object

---
 pybindgen/container.py | 13 ++++++-------
 pybindgen/cppclass.py  | 31 +++++++++++++++++++++++++++++++
 pybindgen/cppmethod.py |  7 +++++++
 3 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index c8ef4ab..53ac8d2 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -606,16 +606,15 @@ static int
         return -1;
     }
 
-    self->obj = new %(CTYPE)s;
+    %(CTYPE)s *obj = new %(CTYPE)s;
 
-    if (arg == NULL)
-        return 0;
-
-    if (!%(CONTAINER_CONVERTER_FUNC_NAME)s(arg, self->obj)) {
-        delete self->obj;
-        self->obj = NULL;
+    if (arg != NULL && !%(CONTAINER_CONVERTER_FUNC_NAME)s(arg, obj)) {
+        delete obj;
         return -1;
     }
+    // __init__ may be called again for the same object
+    delete self->obj;
+    self->obj = obj;
     return 0;
 }
 ''' % subst_vars)
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 480074c..2f0df5c 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1096,6 +1096,37 @@ class CppClass(object):
             construct_type_name = self.get_construct_name()
         post_instance_creation_func(self, code_block, lvalue, parameters, construct_type_name)
 
+    def write_save_previous_instance(self, wrapper, py_name):
+        """Remember the C++ object that a wrapper has, before a
+        constructor gives it another one.
+
+        :returns: value to pass to :meth:`write_release_previous_instance`
+        """
+        if self.is_singleton or self.memory_policy is not None and '*' not in self.memory_policy.get_pointer_type('T'):
+            return None
+        old_obj = wrapper.declarations.declare_variable("%s *" % self.full_name, "previous_obj", "%s->obj" % py_name)
+        old_flags = wrapper.declarations.declare_variable("PyBindGenWrapperFlags", "previous_flags", "%s->flags" % py_name)
+        return old_obj, old_flags
+
+    def write_release_previous_instance(self, code_block, py_name, previous):
+        """Release the C++ object that a wrapper had before a
+        constructor gave it another one, as when the wrapper dies."""
+        if previous is None:
+            return
+        old_obj, old_flags = previous
+        code_block.write_code(
+            "if (%(old)s) {\n"
+            "    %(type)s *created_obj = %(self)s->obj;\n"
+            "    %(self)s->obj = %(old)s;\n"
+            "    %(self)s->flags = %(flags)s;" % dict(old=old_obj, flags=old_flags, type=self.full_name, self=py_name))
+        code_block.indent()
+        self.write_unregister_wrapper(code_block, py_name)
+        code_block.write_code("{\n%s\n}" % self._get_delete_code())
+        code_block.write_code("%s->obj = created_obj;\n"
+                              "%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (py_name, py_name))
+        code_block.unindent()
+        code_block.write_code("}")
+
     def get_pystruct(self):
         if self._pystruct is None:
             raise ValueError
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index d3a56eb..fae4b6b 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -670,6 +670,9 @@ class CppConstructor(ForwardWrapperBase):
         if class_ is None:
             class_ = self._class
 
+        # __init__ may be called again for the same wrapper
+        previous = class_.write_save_previous_instance(self, "self")
+
         if self.throw:
             self.before_call.write_code('try\n{')
             self.before_call.indent()
@@ -725,6 +728,8 @@ class CppConstructor(ForwardWrapperBase):
         if self.throw:
             self.write_catch_blocks(self.throw, 'return -1;')
 
+        class_.write_release_previous_instance(self.before_call, "self", previous)
+
     def _before_call_hook(self):
         "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
         from . import cppclass
@@ -838,12 +843,14 @@ class CppFunctionAsConstructor(CppConstructor):
             class_ = self._class
         #assert isinstance(class_, CppClass)
         assert class_.helper_class is None
+        previous = class_.write_save_previous_instance(self, "self")
         ## FIXME: check caller_owns_return in self.function_return_value
         self.before_call.write_code("self->obj = %s(%s);" %
                                     (self.c_function_name, ", ".join(self.call_params)))
         self.write_restore_thread()
         self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
         class_.write_register_wrapper(self.before_call, "self")
+        class_.write_release_previous_instance(self.before_call, "self", previous)
 
 
 class CppOverloadedConstructor(overloading.OverloadedWrapper):
-- 
2.43.0


From a24b9089fa0b09f5de5c5828db465e6c3c40a61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 103/123] fix: release the container of an output parameter
 when the call fails

---
 pybindgen/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 53ac8d2..2d3b991 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -784,8 +784,10 @@ class ContainerPtrParameter(ContainerParameterBase):
 
         elif self.direction == Parameter.DIRECTION_OUT:
             container_tmp_var = wrapper.declarations.declare_variable(
-                self.container_type.full_name + '*', self.name + '_value', initializer="new %s" % self.container_type.full_name)
+                self.container_type.full_name + '*', self.name + '_value', initializer="NULL")
 
+            wrapper.before_call.write_code("%s = new %s;" % (container_tmp_var, self.container_type.full_name))
+            wrapper.before_call.add_cleanup_code("delete %s;" % container_tmp_var)
             wrapper.call_params.append(container_tmp_var)
 
             py_name = wrapper.declarations.declare_variable(
@@ -795,7 +797,7 @@ class ContainerPtrParameter(ContainerParameterBase):
                 "%s = PyObject_New(%s, %s);" %
                 (py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
 
-            wrapper.after_call.write_code("%s->obj = %s;" % (py_name, container_tmp_var))
+            wrapper.after_call.write_code("%s->obj = %s;\n%s = NULL;" % (py_name, container_tmp_var, container_tmp_var))
 
             wrapper.build_params.add_parameter("N", [py_name])
 
-- 
2.43.0


From a3d3f931dc839546d17f6bb55b2362cfc8252eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:47 +0000
Subject: [PATCH 104/123] fix: a deprecated overload raises the
 DeprecationWarning that was turned into an error

---
 pybindgen/typehandlers/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index aa066db..02f67a9 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -996,7 +996,11 @@ class ForwardWrapperBase(object):
                 msg = self.deprecated
             else:
                 msg = "Deprecated"
+            ## the parameters were accepted: this is not a parse error
+            parse_error_return = self.before_call.error_return
+            self.before_call.error_return = self.after_call.error_return
             self.before_call.write_error_check( 'PyErr_Warn(PyExc_DeprecationWarning, (char *) "%s")' % msg)
+            self.before_call.error_return = parse_error_return
 
         self._before_call_hook()
 
-- 
2.43.0


From cc62421bf9076f93a934124daed20545d13c3922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:47 +0000
Subject: [PATCH 105/123] fix: protected deprecated methods warn when they are
 called

---
 pybindgen/cppmethod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index fae4b6b..546f7b0 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -917,7 +917,7 @@ class CppVirtualMethodParentCaller(CppMethod):
             unblock_threads = method.unblock_threads
         super(CppVirtualMethodParentCaller, self).__init__(
             method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads,
-            throw=method.throw)
+            deprecated=method.deprecated, throw=method.throw)
         #self.static_decl = False
         self.method = method
 
-- 
2.43.0


From bbf1f012e6660aa9cb7b251c016b13b7381ad917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:47 +0000
Subject: [PATCH 106/123] fix: a class without a usable constructor raises
 TypeError when it is constructed

---
 pybindgen/cppclass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 2f0df5c..1b242b7 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2377,6 +2377,10 @@ typedef struct {
                 constructor = None
                 have_constructor = False
         else:
+            constructor = None
+            have_constructor = False
+
+        if constructor is None:
             ## In C++, and unlike Python, constructors with
             ## parameters are not automatically inheritted by
             ## subclasses.  We must generate a 'no constructor'
@@ -2387,11 +2391,9 @@ typedef struct {
             wrapper = CppNoConstructor(self.cannot_be_constructed)
             wrapper.generate(code_sink, self)
             constructor = wrapper.wrapper_actual_name
-            have_constructor = False
             code_sink.writeln()
 
-        self.slots.setdefault("tp_init", (constructor is None and "NULL"
-                                          or constructor))
+        self.slots.setdefault("tp_init", constructor)
         return have_constructor
 
     def _generate_copy_method(self, code_sink):
-- 
2.43.0


From 4ffb211c235281400fa34ccd389351fb4aee209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:47 +0000
Subject: [PATCH 107/123] fix: a protected method does not hide public
 overloads of parent classes

---
 pybindgen/cppclass.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 1b242b7..699d59d 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -488,6 +488,23 @@ void set_pyobj(PyObject *pyobj)
 
         return True
 
+    def _hides_inherited_method(self, parent_caller):
+        """
+        Whether a parent caller, in the method table of the class, would
+        hide a public method with other parameters of a parent class.
+        """
+        mro = self.class_.get_mro()
+        next(mro) # skip the class itself
+        for cls in mro:
+            overload = cls.methods.get(parent_caller.wrapper_name)
+            if overload is None:
+                continue
+            for method in overload.wrappers:
+                if method.visibility == 'public' and not any(method.matches_signature(wrapper)
+                                                             for wrapper in parent_caller.wrappers):
+                    return True
+        return False
+
     def generate(self, code_sink):
         """
         Generate the proxy class (virtual method bodies only) to a given code sink.
@@ -513,6 +530,8 @@ void set_pyobj(PyObject *pyobj)
                 parent_caller_name = '_'+name
             else:
                 parent_caller_name = name
+                if self._hides_inherited_method(parent_caller):
+                    continue
             method_defs.append(parent_caller.get_py_method_def(parent_caller_name))
 
         ## write the virtual proxies
-- 
2.43.0


From d881dd73c85f9fe7238651767e2a206a9ba7895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:47 +0000
Subject: [PATCH 108/123] fix: Python subclasses of derived classes can call
 inherited protected methods

---
 pybindgen/cppclass.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 699d59d..69c8526 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -304,6 +304,13 @@ class CppHelperClass(object):
             self.add_virtual_proxy(proxy)
 
 
+    def add_protected_method(self, method):
+        "Let python subclasses call a protected method"
+        parent_caller = CppVirtualMethodParentCaller(method)
+        parent_caller.helper_class = self
+        parent_caller.main_wrapper = method
+        self.add_virtual_parent_caller(parent_caller)
+
     def add_virtual_parent_caller(self, parent_caller):
         """Add a new CppVirtualMethodParentCaller object to this helper class"""
         assert isinstance(parent_caller, CppVirtualMethodParentCaller)
@@ -663,6 +670,7 @@ class CppClass(object):
         self.methods = collections.OrderedDict() # name => OverloadedMethod
         self._dummy_methods = [] # methods that have parameter/retval binding problems
         self.nonpublic_methods = []
+        self.protected_methods = [] # the non-virtual ones
         self.constructors = [] # (name, wrapper) pairs
         self.pytype = PyTypeObject()
         self.slots = self.pytype.slots
@@ -1495,12 +1503,10 @@ public:
         method.class_ = self
 
         if method.visibility == 'protected' and not method.is_virtual:
+            self.protected_methods.append(method)
             helper_class = self.get_helper_class()
             if helper_class is not None:
-                parent_caller = CppVirtualMethodParentCaller(method)
-                parent_caller.helper_class = helper_class
-                parent_caller.main_wrapper = method
-                helper_class.add_virtual_parent_caller(parent_caller)
+                helper_class.add_protected_method(method)
         elif method.visibility == 'public':
             if name == '__call__': # needs special handling
                 method.force_parse = method.PARSE_TUPLE_AND_KEYWORDS
@@ -1844,23 +1850,33 @@ public:
 
 
     def _inherits_virtual_methods(self):
-        "Whether some parent class has virtual methods"
+        "Whether some parent class has virtual (or protected) methods"
         mro = self.get_mro()
         next(mro) # skip 'self'
         for cls in mro:
             for method in cls.get_all_methods():
                 if method.is_virtual:
                     return True
+            if cls.protected_methods:
+                return True
         return False
 
     def _inherit_helper_class_parent_virtuals(self):
         """
         Given a class containing a helper class, add all virtual
-        methods from the all parent classes of this class.
+        (and the protected) methods from the all parent classes of this class.
         """
-        mro = self.get_mro()
-        next(mro) # skip 'self'
-        for cls in mro:
+        hidden = set() # names declared again by a class that is nearer
+        for cls in self.get_mro():
+            names = [method.method_name for method in list(cls.get_all_methods()) + cls.protected_methods
+                     if isinstance(method, CppMethod)]
+            if cls is self:
+                hidden.update(names)
+                continue
+            for method in cls.protected_methods:
+                if method.method_name not in hidden:
+                    self.helper_class.add_protected_method(method.clone())
+            hidden.update(names)
             for method in cls.get_all_methods():
                 if not method.is_virtual:
                     continue
-- 
2.43.0


From 5d4f70c18766e4d2de849f0a1c227197513c9943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:53 +0000
Subject: [PATCH 109/123] fix: the implicit conversion of a derived class is
 preferred to the one of its base

---
 pybindgen/cppclass.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 69c8526..9ebe89b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1195,7 +1195,10 @@ class CppClass(object):
         >>> [cls.name for cls in l]
         ['Bar']
         """
-        return list(self.implicitly_converts_from)
+        ## derived classes first, as their conversion is to be
+        ## preferred to the one of a base class
+        return sorted(self.implicitly_converts_from,
+                      key=lambda cls: -len(list(cls.get_mro())))
 #         classes = []
 #         to_visit = list(self.implicitly_converts_from)
 #         while to_visit:
-- 
2.43.0


From 6ced1a5305e9cd045d6b52dabdc8c581fcb832f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:54 +0000
Subject: [PATCH 110/123] fix: type transformations are applied to the
 parameters and results of Python overrides

---
 pybindgen/cppclass.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9ebe89b..6a7304d 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -12,7 +12,7 @@ from pybindgen.utils import any, mangle_name
 import warnings
 import traceback
 
-from pybindgen.typehandlers.base import Parameter, ReturnValue, \
+from pybindgen.typehandlers.base import Parameter, ReturnValue, NullTypeTransformation, \
     join_ctype_and_name, CodeGenerationError, \
     param_type_matcher, return_type_matcher, CodegenErrorBase, \
     DeclarationsScope, CodeBlock, NotSupportedError, ForwardWrapperBase, ReverseWrapperBase, \
@@ -3734,7 +3734,7 @@ class CppClassPtrParameter(CppClassParameterBase):
 
         ## Value transformations
         value = self.transformation.untransform(
-            self, wrapper.declarations, wrapper.after_call, self.value)
+            self, wrapper.declarations, wrapper.before_call, self.value)
 
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
@@ -3780,10 +3780,10 @@ class CppClassPtrParameter(CppClassParameterBase):
                             raise CodeGenerationError("Class {0} cannot be copied".format(self.cpp_class.full_name))
                         self.cpp_class.write_create_instance(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
-                                                             '*'+self.value)
+                                                             '*('+value+')')
                         self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                                          "%s->obj" % self.py_name,
-                                                                         '*'+self.value)
+                                                                         '*('+value+')')
                     else:
                         ## out/inout case:
                         ## the callee receives a "temporary wrapper", which loses
@@ -3976,7 +3976,9 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
 
     def get_c_error_return(self): # only used in reverse wrappers
         """See ReturnValue.get_c_error_return"""
-        return "return NULL;"
+        if isinstance(self.transformation, NullTypeTransformation):
+            return "return NULL;"
+        return "return %s();" % self.ctype
 
     def convert_c_to_python(self, wrapper):
         """See ReturnValue.convert_c_to_python"""
@@ -4021,8 +4023,13 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         wrapper.parse_params.add_parameter(
             'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
-        value = self.transformation.transform(
-            self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
+        value = "%s->obj" % name
+        if isinstance(self.transformation, NullTypeTransformation):
+            result = self.value
+        else:
+            ## get the pointer first; it is transformed in the end
+            result = wrapper.declarations.declare_variable(
+                '%s*' % self.cpp_class.full_name, "retval_ptr")
 
         ## now the hairy part :)
         if self.caller_owns_return:
@@ -4032,7 +4039,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
                     if not self.cpp_class.has_copy_constructor:
                         raise CodeGenerationError("Class {0} cannot be copied".format(self.cpp_class.full_name))
                     self.cpp_class.write_create_instance(wrapper.after_call,
-                                                         "%s" % self.value,
+                                                         "%s" % result,
                                                          '*'+value)
                 except CodeGenerationError:
                     copy_possible = False
@@ -4041,12 +4048,12 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
 
                 if copy_possible:
                     self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                     "%s" % self.value,
+                                                                     "%s" % result,
                                                                      '*'+value)
                 else:
                     # value = pyobj->obj; pyobj->obj = NULL;
                     wrapper.after_call.write_code(
-                        "%s = %s;" % (self.value, value))
+                        "%s = %s;" % (result, value))
                     wrapper.after_call.write_code(
                         "%s = NULL;" % (value,))
             else:
@@ -4055,19 +4062,23 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
                 if self.type_traits.target_is_const:
                     wrapper.after_call.write_code(
                         "%s = const_cast< %s* >(%s);" %
-                        (self.value, self.cpp_class.full_name, value))
+                        (result, self.cpp_class.full_name, value))
                 else:
                     wrapper.after_call.write_code(
-                        "%s = %s;" % (self.value, value))
+                        "%s = %s;" % (result, value))
         else:
             ## caller gets a shared pointer
             ## but this is dangerous, avoid at all cost!!!
             wrapper.after_call.write_code(
-                "// dangerous!\n%s = %s;" % (self.value, value))
+                "// dangerous!\n%s = %s;" % (result, value))
             warnings.warn("Returning shared pointers is dangerous!"
                           "  The C++ API should be redesigned "
                           "to avoid this situation.")
 
+        if result != self.value:
+            wrapper.after_call.write_code("%s = %s;" % (self.value, self.transformation.transform(
+                self, wrapper.declarations, wrapper.after_call, result)))
+
 
 ##
 ##  Core of the custodians-and-wards implementation
-- 
2.43.0


From 48bca160e6e20769351513d488b012874a8da998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 111/123] fix: scan hooks can be added with Python 3.10 and
 later

---
 pybindgen/castxmlparser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index e4e7d1d..92f9485 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -52,7 +52,6 @@ from pygccxml.utils import find_xml_generator
 #from pygccxml.declarations.calldef import \
 #    destructor_t, constructor_t, member_function_t
 from pygccxml.declarations.variable import variable_t
-import collections
 
 import subprocess
 from cxxfilt import demangle
@@ -633,7 +632,7 @@ class ModuleParser(object):
                                     methods are denoted by a annotation for a
                                     parameter named 'return'.
         """
-        if not isinstance(hook, collections.Callable):
+        if not callable(hook):
             raise TypeError("hook must be callable")
         self._pre_scan_hooks.append(hook)
 
@@ -652,7 +651,7 @@ class ModuleParser(object):
            - pybindgen_wrapper -- a pybindgen object that generates a wrapper,
                                 such as CppClass, Function, or CppMethod.
         """
-        if not isinstance(hook, collections.Callable):
+        if not callable(hook):
             raise TypeError("hook must be callable")
         self._post_scan_hooks.append(hook)
 
-- 
2.43.0


From d1cae0fe4a2c4ba0580bb75c9e93a18ef55a3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 112/123] fix: names of classes in annotations are relative to
 the module's namespace

---
 pybindgen/castxmlparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 92f9485..ad66059 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -235,6 +235,8 @@ def normalize_name(decl_string):
 
 def normalize_class_name(class_name, module_namespace):
     class_name = utils.ascii(class_name)
+    if not module_namespace.endswith('::'):
+        module_namespace += '::'
     if not class_name.startswith(module_namespace):
         class_name = module_namespace + class_name
     class_name = normalize_name(class_name)
-- 
2.43.0


From c10f221209e434a87a0387f55320ce7b5065059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 113/123] fix: no warnings about valid annotations

---
 pybindgen/castxmlparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index ad66059..98cc94b 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -349,7 +349,7 @@ class GccXmlTypeRegistry(object):
         for name, value in annotations.items():
             if name == 'caller_owns_return':
                 kwargs['caller_owns_return'] = annotations_scanner.parse_boolean(value)
-            if name == 'free_after_copy':
+            elif name == 'free_after_copy':
                 kwargs['free_after_copy'] = annotations_scanner.parse_boolean(value)
             elif name == 'reference_existing_object':
                 kwargs['reference_existing_object'] = annotations_scanner.parse_boolean(value)
@@ -1005,6 +1005,8 @@ pybindgen.settings.error_handler = ErrorHandler()
                 kwargs.setdefault('custom_name', value)
             elif name == 'pygen_comment':
                 pass
+            elif name == 'template_instance_names':
+                pass
             elif name == 'exception':
                 is_exception = True
             elif name == 'import_from_module':
@@ -2322,7 +2324,6 @@ pybindgen.settings.error_handler = ErrorHandler()
                 if argnum == 0 and as_method is not None \
                         and isinstance(arg.decl_type, cpptypes.pointer_t):
                     annotations.setdefault("transfer_ownership", "false")
-                    annotations.setdefault("free_after_copy", "false")
 
 
                 spec = self.type_registry.lookup_parameter(arg.decl_type, arg.name,
-- 
2.43.0


From 7848e45c9f90cb085da5bf323da44d2d9da7fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 114/123] fix: chains of classes longer than ten can be scanned

---
 pybindgen/castxmlparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 98cc94b..980be1d 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -1163,6 +1163,7 @@ pybindgen.settings.error_handler = ErrorHandler()
                 typedefs.append(typedef)
 
         unregistered_classes.sort(key=lambda c: c.decl_string)
+        class_count = len(unregistered_classes)
         # logger.debug("unregistered_classes: %r", unregistered_classes)
 
         def postpone_class(cls, reason):
@@ -1172,7 +1173,7 @@ pybindgen.settings.error_handler = ErrorHandler()
             count = getattr(cls, "_pybindgen_postpone_count", 0)
             count += 1
             cls._pybindgen_postpone_count = count
-            if count >= 10:
+            if count > class_count:
                 raise AssertionError("The class %s registration is being postponed for "
                                      "the %ith time (last reason: %r, current reason: %r);"
                                      " something is wrong, please file a bug report"
-- 
2.43.0


From c9d331162c46d12f87e1b6fb8ace92b10b6bf032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 115/123] fix: conversions and operators of nested classes are
 not those of the class around them

---
 pybindgen/castxmlparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 980be1d..b46e925 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -1437,7 +1437,7 @@ pybindgen.settings.error_handler = ErrorHandler()
             timings.append(time.time())
 
             # scan for implicit conversion casting operators
-            for operator in cls.casting_operators(allow_empty=True):
+            for operator in cls.casting_operators(allow_empty=True, recursive=False):
                 target_type = type_traits.remove_declarated(operator.return_type)
                 if not isinstance(target_type, class_t):
                     continue
@@ -1833,7 +1833,7 @@ pybindgen.settings.error_handler = ErrorHandler()
 
         for op in cls.member_operators(function=self.location_filter,
                                        allow_empty=True,
-                                       recursive=True):
+                                       recursive=False):
             if op.access_type != 'public':
                 continue
             arg_types = [arg.decl_type for arg in op.arguments]
-- 
2.43.0


From 2c68b81853d786f53db9a83307f8cf8c1e148092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 116/123] fix: conversions to classes that are scanned later

---
 pybindgen/castxmlparser.py | 44 ++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index b46e925..4dd1601 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -604,6 +604,7 @@ class ModuleParser(object):
         self._anonymous_structs = [] # list of (pygccxml_anonymous_class, outer_pybindgen_class)
         self._containers_to_register = []
         self._containers_registered = {}
+        self._late_conversions = [] # list of (pybindgen_class, pygccxml_operator, target class name)
         self.enable_anonymous_containers = True
 
     def add_pre_scan_hook(self, hook):
@@ -941,6 +942,21 @@ pybindgen.settings.error_handler = ErrorHandler()
             if pygen_sink:
                 pygen_sink.writeln("def %s(root_module, cls):" % (register_methods_func,))
                 pygen_sink.indent()
+            for wrapper, operator, other_class_name in self._late_conversions:
+                if wrapper is not class_wrapper:
+                    continue
+                try:
+                    other_class = self.module[other_class_name]
+                except KeyError:
+                    warnings.warn_explicit("Implicit conversion target type %s not registered"
+                                           % (other_class_name,),
+                                           WrapperWarning, operator.location.file_name,
+                                           operator.location.line)
+                else:
+                    class_wrapper.implicitly_converts_to(other_class)
+                    if pygen_sink:
+                        pygen_sink.writeln("root_module[%r].implicitly_converts_to(root_module[%r])"
+                                           % (class_wrapper.full_name, other_class.full_name))
             ## Add attributes from inner anonymous to each outer class (LP#237054)
             for anon_cls, wrapper in self._anonymous_structs:
                 if wrapper is class_wrapper:
@@ -1262,28 +1278,6 @@ pybindgen.settings.error_handler = ErrorHandler()
 
             timings.append(time.time())
 
-            ## If this class implicitly converts to another class, but
-            ## that other class is not yet registered, postpone.
-            for operator in cls.casting_operators(allow_empty=True):
-                target_type = type_traits.remove_declarated(operator.return_type)
-                if not isinstance(target_type, class_t):
-                    continue
-                target_class_name = normalize_class_name(operator.return_type.partial_decl_string, '::')
-                try:
-                    dummy = root_module[target_class_name]
-                except KeyError:
-                    if target_class_name not in [normalize_class_name(t.partial_decl_string, '::') for t in unregistered_classes]:
-                        ok = True # (lp:455689)
-                    else:
-                        ok = False
-                    break
-            else:
-                ok = True
-            if not ok:
-                postpone_class(cls, ("waiting for implicit conversion target class %s to be registered first"
-                                     % (operator.return_type.partial_decl_string,)))
-                continue
-
             is_exception = self._apply_class_annotations(cls, global_annotations, kwargs)
 
             timings.append(time.time())
@@ -1445,10 +1439,8 @@ pybindgen.settings.error_handler = ErrorHandler()
                 try:
                     other_class = root_module[other_class_name]
                 except KeyError:
-                    warnings.warn_explicit("Implicit conversion target type %s not registered"
-                                           % (other_class_name,),
-                                           WrapperWarning, operator.location.file_name,
-                                           operator.location.line)
+                    ## the target may be registered later
+                    self._late_conversions.append((class_wrapper, operator, other_class_name))
                 else:
                     class_wrapper.implicitly_converts_to(other_class)
                     if pygen_sink:
-- 
2.43.0


From 1eb5c201affd85727bb1662d5cd5433c38cec528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 117/123] fix: import_from_module of scanned enumerations

---
 pybindgen/castxmlparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 4dd1601..4408439 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -1147,7 +1147,8 @@ pybindgen.settings.error_handler = ErrorHandler()
                 pygen_sink.writeln('module.add_enum(%s)' % ', '.join(l))
 
             module.add_enum(utils.ascii(enum.name), [utils.ascii(name) for name, dummy_val in enum.values],
-                            outer_class=outer_class)
+                            outer_class=outer_class,
+                            import_from_module=global_annotations.get('import_from_module'))
 
         ## scan classes
         if outer_class is None:
-- 
2.43.0


From 3990a384ec178b572b1daf1683ef977be36ca0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 118/123] fix: constructors of anonymous unions are not those
 of the class around them

---
 pybindgen/castxmlparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 4408439..0ed1b69 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -2056,6 +2056,8 @@ pybindgen.settings.error_handler = ErrorHandler()
 
             ## ------------ constructor --------------------
             elif isinstance(member, calldef_members.constructor_t):
+                if not cls.name:
+                    continue # of an anonymous structure, they do not construct the class it is in
                 if member.access_type not in ['public', 'protected']:
                     continue
 
@@ -2168,6 +2170,9 @@ pybindgen.settings.error_handler = ErrorHandler()
             elif isinstance(member, calldef_members.destructor_t):
                 pass
 
+        if not cls.name:
+            return
+
         ## gccxml 0.9, unlike 0.7, does not explicitly report inheritted trivial constructors
         ## thankfully pygccxml comes to the rescue!
         if not have_trivial_constructor:
-- 
2.43.0


From ef91684ffa3575c4d64a4756bd06e3348b1caeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 119/123] fix: annotations of the parameters of constructors

---
 pybindgen/castxmlparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 0ed1b69..2e9d26d 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -2067,6 +2067,7 @@ pybindgen.settings.error_handler = ErrorHandler()
                 argument_specs = []
                 for arg in member.arguments:
                     argument_specs.append(self.type_registry.lookup_parameter(arg.decl_type, arg.name,
+                                                                              parameter_annotations.get(arg.name, {}),
                                                                               default_value=arg.default_value))
 
                 arglist_repr = ("[" + ', '.join([_pygen_param(args_, kwargs_) for (args_, kwargs_) in argument_specs]) +  "]")
-- 
2.43.0


From a64fb935b6a94500a9536e3b61a27fd7b2334a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 120/123] fix: functions scanned as constructors in namespaces

---
 pybindgen/castxmlparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 2e9d26d..5175992 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -2373,16 +2373,19 @@ pybindgen.settings.error_handler = ErrorHandler()
                 #cpp_class = type_registry.find_class(is_constructor_of, (self.module_namespace_name or '::'))
                 cpp_class = root_module[normalize_class_name(is_constructor_of, (self.module_namespace_name or '::'))]
 
+                ## the name is written as it is in the generated code, so it has to be a full one
+                fun_name = utils.ascii('::'.join([name for name in declarations.declaration_path(fun) if name != '::']))
+
                 pygen_sink = self._get_pygen_sink_for_definition(fun)
                 if pygen_sink:
                     if 'pygen_comment' in global_annotations:
                         pygen_sink.writeln('## ' + global_annotations['pygen_comment'])
                     pygen_sink.writeln("root_module[%r].add_function_as_constructor(%s)" %
                                        (cpp_class.full_name,
-                                        ", ".join([repr(fun.name), retval_repr, arglist_repr]),))
+                                        ", ".join([repr(fun_name), retval_repr, arglist_repr]),))
 
                 if params_ok:
-                    function_wrapper = cpp_class.add_function_as_constructor(fun.name, return_type, arguments)
+                    function_wrapper = cpp_class.add_function_as_constructor(fun_name, return_type, arguments)
                     function_wrapper.castxml_definition = fun
 
                 continue
-- 
2.43.0


From 021241d3b7178b3eaed6fa574ebf44b9b8ae023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:15 +0000
Subject: [PATCH 121/123] fix: a typedef of a class holds a reference to its
 type

---
 pybindgen/cppclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6a7304d..be7e455 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2864,8 +2864,9 @@ if (PyObject_TypeCheck((PyObject *) other, &%s)) {""" % self.pytypestruct)
         with a new name in that module (typedef alias).
         """
         module.after_init.write_code(
+            'Py_INCREF((PyObject *) &%s);\n'
             'PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
-                alias, self.pytypestruct))
+                self.pytypestruct, alias, self.pytypestruct))
 
     def write_allocate_pystruct(self, code_block, lvalue, wrapper_type=None):
         """
-- 
2.43.0


From c6e1f5569520c25f7b778a06b41b054b71ca1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:53 +0000
Subject: [PATCH 122/123] fix: a base class reached by way of several bases is
 visited once, as are its helper class hooks

---
 pybindgen/cppclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index be7e455..883f45e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -989,6 +989,8 @@ class CppClass(object):
         visited = set()
         while to_visit:
             cls = to_visit.pop(0)
+            if cls in visited:
+                continue # reached by way of several bases
             visited.add(cls)
             yield cls
             for base in cls.bases:
-- 
2.43.0


From e076e2388092044542572d485b00634b38dc2c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:06 +0000
Subject: [PATCH 123/123] fix: an override with one argument, a tuple, is
 called with that tuple

PyObject_CallMethod() takes a single tuple for the arguments themselves.
---
 pybindgen/cppmethod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 546f7b0..8a9a6dd 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1079,7 +1079,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
             params = ['m_pyself', '(char *) "_%s"' % self.method_name]
         else:
             params = ['m_pyself', '(char *) "%s"' % self.method_name]
-        build_params = self.build_params.get_parameters()
+        build_params = self.build_params.get_parameters(force_tuple_creation=True)
         if build_params[0][0] == '"':
             build_params[0] = '(char *) ' + build_params[0]
         params.extend(build_params)
-- 
2.43.0

