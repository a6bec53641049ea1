From 38d9dddd0cde2af0c8163931ead1ba5b5415fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 01/86] fix: run Python 2.7 bytecode (wrong module path for
 ByteOp27)

---
 xpython/byteop/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/__init__.py b/xpython/byteop/__init__.py
index 54e9090..b13dce9 100644
--- a/xpython/byteop/__init__.py
+++ b/xpython/byteop/__init__.py
@@ -24,7 +24,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                     byteop = ByteOp27PyPy(vm)
                 else:
-                    from xpython.byteop.opcode_2x.byteop27 import ByteOp27
+                    from xpython.byteop.byteop27 import ByteOp27
 
                     byteop = ByteOp27(vm)
             else:
@@ -68,7 +68,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                 byteop = ByteOp34(vm)
             else:
-                raise vm.VMEerror(f"Version {python_version} not supported")
+                raise vm.PyVMError(f"Version {python_version} not supported")
         else:
             if python_version == (3, 5):
                 if is_pypy:
-- 
2.43.0


From 98cdef756c099580178fae6e52a472ae2c61cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 02/86] fix: PyPy 3.7+ CALL_METHOD pops what LOOKUP_METHOD
 pushed

---
 xpython/byteop/byteop37pypy.py | 11 +++++++++++
 xpython/byteop/byteop38pypy.py |  1 +
 xpython/byteop/byteop39pypy.py |  1 +
 3 files changed, 13 insertions(+)

diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 1de6785..1dc9e1b 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -48,6 +48,17 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         self.is_pypy = True
         self.version = "3.7.12 (x-python, Oct 27 1955, 00:00:00)\n[PyPy with x-python]"
 
+    def CALL_METHOD(self, argc: int):
+        """
+        Calls a method found by LOOKUP_METHOD: argc positional arguments are on
+        top of the stack. Below them is the cached method slot, which in our
+        case is garbage, and below that is the method to call.
+        """
+        pos_args = self.vm.popn(argc)
+        self.vm.pop()  # cached method slot is not used here.
+        func = self.vm.pop()
+        return self.call_function_with_args_resolved(func, pos_args, {})
+
     def CALL_METHOD_KW(self, argc: int):
         """
         argc has a count of the number of keyword parameters.
diff --git a/xpython/byteop/byteop38pypy.py b/xpython/byteop/byteop38pypy.py
index 8af168d..5ec9f0a 100644
--- a/xpython/byteop/byteop38pypy.py
+++ b/xpython/byteop/byteop38pypy.py
@@ -22,4 +22,5 @@ class ByteOp38PyPy(ByteOp38, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
diff --git a/xpython/byteop/byteop39pypy.py b/xpython/byteop/byteop39pypy.py
index d3ab917..814df43 100644
--- a/xpython/byteop/byteop39pypy.py
+++ b/xpython/byteop/byteop39pypy.py
@@ -22,4 +22,5 @@ class ByteOp39PyPy(ByteOp39, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
-- 
2.43.0


From 39d236ffde0a4d685bf5efd70bfd144d4900bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 03/86] fix: an exception that leaves a function reaches its
 caller

Leaving a frame by an exception made the caller see RuntimeError("No active
exception to reraise"), or nothing at all (the stale return value), and
reporting an uncaught exception failed in turn.
---
 xpython/vm.py      | 42 +++++++++++++++++++++++-------------------
 xpython/vmtrace.py | 20 +-------------------
 2 files changed, 24 insertions(+), 38 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 2f699ec..6bd356e 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -443,9 +443,7 @@ class PyVM(object):
                 print("Traceback (most recent call last):")
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
-                print(
-                    f"{self.last_exception[0].__name__}:", *self.last_exception[1]
-                )
+                print(f"{self.last_exception[0].__name__}: {self.last_exception[1]}")
             return 1
 
         except Exception:
@@ -803,6 +801,27 @@ class PyVM(object):
 
         return why
 
+    def propagate_exception(self):
+        """The frame that was just popped was left by an exception. Raise that
+        exception in the calling frame or, when there is no calling frame,
+        report it as uncaught.
+        """
+        last_exception = self.last_exception
+        if not (last_exception and last_exception[0]):
+            raise PyVMError("Borked exception recording")
+        if not self.frame:
+            raise PyVMUncaughtException.from_tuple(last_exception)
+        exc_type, exc_value = last_exception[:2]
+        if not isinstance(exc_value, BaseException):
+            # An exception that has not been normalized yet
+            if exc_value is None:
+                exc_value = exc_type()
+            elif isinstance(exc_value, tuple):
+                exc_value = exc_type(*exc_value)
+            else:
+                exc_value = exc_type(exc_value)
+        raise exc_value
+
     # Interpreter main loop
     # This is analogous to CPython's _PyEval_EvalFrameDefault() (in 3.x newer Python)
     # or eval_frame() in older 2.x code.
@@ -891,22 +910,7 @@ class PyVM(object):
         self.pop_frame()
 
         if why == "exception":
-            last_exception = self.last_exception
-            if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            raise PyVMUncaughtException.from_tuple(last_exception)
-                        else:
-                            raise
-                else:
-                    raise
-            else:
-                raise PyVMError("Borked exception recording")
-            # if self.exception and .... ?
-            # log.error("Haven't finished traceback handling, nulling traceback "
-            #            "information for now")
-            # six.reraise(self.last_exception[0], None)
+            self.propagate_exception()
 
         self.in_exception_processing = False
         return self.return_value
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index a2b3262..8df8cd5 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -350,25 +350,7 @@ class PyVMTraced(PyVM):
         self.pop_frame()
 
         if why == "exception":
-            last_exception = self.last_exception
-            if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            self.last_exception = PyVMUncaughtException.from_tuple(
-                                last_exception
-                            )
-                        raise self.last_exception
-                    else:
-                        raise last_exception[0]
-                    pass
-                pass
-            else:
-                raise PyVMError("Borked exception recording")
-            # if self.exception and .... ?
-            # log.error("Haven't finished traceback handling, nulling traceback "
-            #            "information for now")
-            # six.reraise(self.last_exception[0], None)
+            self.propagate_exception()
 
         self.in_exception_processing = False
 
-- 
2.43.0


From 44d7f32013d174b23d7579f416c817010e0bd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 04/86] fix: absolute jumps of 3.10 when the version is given
 as (3, 10)

---
 xpython/vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 6bd356e..de0039e 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -595,7 +595,7 @@ class PyVM(object):
                     # We probably could set fallthough, since many (all?)
                     # of these are unconditional, but we'll make the jump do
                     # the work of setting.
-                    if self.version >= (3, 10, 0):
+                    if self.version >= (3, 10):
                         int_arg += int_arg
                     arg = int_arg
                 elif byte_code in self.opc.LOCAL_OPS:
-- 
2.43.0


From ebffb1579af33797b83933492798ea84724b7b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 05/86] fix: opcodes of one version no longer vanish when
 another version is loaded

---
 xpython/byteop/byteop27.py | 11 ++++++-----
 xpython/byteop/byteop31.py | 13 +++++--------
 xpython/byteop/byteop32.py | 30 +++++++++++++-----------------
 xpython/byteop/byteop34.py |  8 +++++---
 xpython/byteop/byteop35.py | 11 ++++++-----
 xpython/byteop/byteop36.py |  6 +-----
 xpython/byteop/byteop37.py | 11 ++++++-----
 xpython/byteop/byteop38.py | 15 +++++++++------
 xpython/byteop/byteop39.py | 29 +++++++++++++++--------------
 9 files changed, 66 insertions(+), 68 deletions(-)

diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index c22b3c9..e1438bf 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -5,13 +5,9 @@ import types
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop26 import ByteOp26
 
-# Gone since 2.6
-del ByteOp24.JUMP_IF_FALSE
-del ByteOp24.JUMP_IF_TRUE
-
 
 def fmt_set_add(vm, arg, repr_fn=repr):
     return f" set.add({repr_fn(vm.peek(arg))}, {repr_fn(vm.top)})"
@@ -26,6 +22,11 @@ def fmt_map_add(vm, arg, repr_fn=repr):
 
 
 class ByteOp27(ByteOp26):
+    # Opcodes of earlier versions that this version does not have.
+    # These are masked here rather than deleted from the class they come from,
+    # because other versions in the same process still need that class.
+    JUMP_IF_FALSE = JUMP_IF_TRUE = None
+
     def __init__(self, vm):
         super(ByteOp27, self).__init__(vm)
         self.stack_fmt["SET_ADD"] = fmt_set_add
diff --git a/xpython/byteop/byteop31.py b/xpython/byteop/byteop31.py
index 15486ed..697ede5 100644
--- a/xpython/byteop/byteop31.py
+++ b/xpython/byteop/byteop31.py
@@ -4,16 +4,13 @@
 from xpython.byteop.byteop32 import ByteOp32, Version_info
 # from xpython.byteop.byteop26 import ByteOp26
 
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.0 that may want to inherit from this module.
-
-# Added 3.2 but not in 3.1
-del ByteOp32.DUP_TOP_TWO
-del ByteOp32.DELETE_DEREF
-# del ByteOp32.SETUP_WITH
-
 
 class ByteOp31(ByteOp32):
+    # Opcodes of earlier versions that this version does not have.
+    # These are masked here rather than deleted from the class they come from,
+    # because other versions in the same process still need that class.
+    DUP_TOP_TWO = DELETE_DEREF = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.version = "3.1.5 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 7f1dba7..4f572df 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -4,26 +4,10 @@
 import inspect
 
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Function
 
-# Gone since 3.0
-del ByteOp24.PRINT_EXPR
-del ByteOp24.PRINT_ITEM
-del ByteOp24.PRINT_ITEM_TO
-del ByteOp24.PRINT_NEWLINE
-del ByteOp24.PRINT_NEWLINE_TO
-del ByteOp24.BUILD_CLASS
-del ByteOp24.EXEC_STMT
-del ByteOp24.RAISE_VARARGS
-
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.1 that may want to inherit from this module.
-
-# Gone since 3.2
-del ByteOp24.DUP_TOPX
-
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
     """
@@ -37,6 +21,18 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
 
 
 class ByteOp32(ByteOp27):
+    # Opcodes of earlier versions that this version does not have.
+    # These are masked here rather than deleted from the class they come from,
+    # because other versions in the same process still need that class.
+    PRINT_EXPR = None
+    PRINT_ITEM = None
+    PRINT_ITEM_TO = None
+    PRINT_NEWLINE = None
+    PRINT_NEWLINE_TO = None
+    BUILD_CLASS = None
+    EXEC_STMT = None
+    DUP_TOPX = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.stack_fmt["MAKE_FUNCTION"] = fmt_make_function
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index a6db178..1602b3b 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -8,15 +8,17 @@ from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xdis.version_info import IS_PYPY, PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
-from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop33 import ByteOp33
 from xpython.pyobj import Function
 
-# Gone since 3.3
-del ByteOp32.STORE_LOCALS
 
 
 class ByteOp34(ByteOp33):
+    # Opcodes of earlier versions that this version does not have.
+    # These are masked here rather than deleted from the class they come from,
+    # because other versions in the same process still need that class.
+    STORE_LOCALS = None
+
     def __init__(self, vm):
         super(ByteOp34, self).__init__(vm)
         self.version = "3.4.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index e6af99f..639e932 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -1,13 +1,9 @@
 """Bytecode Interpreter operations for Python 3.5
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
-from xpython.byteop.byteop32 import ByteOp32
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop34 import ByteOp34
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
 
-# Gone in 3.5
-del ByteOp24.STORE_MAP
-del ByteOp32.WITH_CLEANUP
 
 
 def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
@@ -24,6 +20,11 @@ def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
 
 
 class ByteOp35(ByteOp34):
+    # Opcodes of earlier versions that this version does not have.
+    # These are masked here rather than deleted from the class they come from,
+    # because other versions in the same process still need that class.
+    STORE_MAP = WITH_CLEANUP = None
+
     def __init__(self, vm):
         super(ByteOp35, self).__init__(vm)
         self.stack_fmt["BUILD_MAP_UNPACK_WITH_CALL"] = fmt_build_map_unpack_with_call
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 4106515..af327b8 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -9,14 +9,10 @@ import inspect
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.pyobj import Function
 
-# Gone in 3.6
-del ByteOp24.MAKE_CLOSURE
-del ByteOp24.CALL_FUNCTION_VAR
-
 # Even though Python 3.6 loses CALL_FUNCTION_VAR_KW, PyPy retains this for 3.6.
 # However, it is gone in 3.7. So we will keep this around for one more version than
 # would be needed if we were doing strictly CPython 3.6
diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 72888a0..2e01bea 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -1,13 +1,9 @@
 """Bytecode Interpreter operations for Python 3.7
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop36 import ByteOp36
 
-# Gone in 3.7
-del ByteOp36.STORE_ANNOTATION
 
-# Gone in 3.6 PyPy (and therefore we kept it in 3.6 Python)
-del ByteOp24.CALL_FUNCTION_VAR_KW
 
 # del ByteOp36.WITH_CLEANUP_START
 # del ByteOp36.WITH_CLEANUP_FINISH
@@ -39,6 +35,11 @@ class ByteOp37(ByteOp36):
     """
     Python 3.7 opcodes
     """
+    # Opcodes of earlier versions that this version does not have.
+    # These are masked here rather than deleted from the class they come from,
+    # because other versions in the same process still need that class.
+    STORE_ANNOTATION = CALL_FUNCTION_VAR_KW = None
+
     def __init__(self, vm):
         super().__init__(vm)
 
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index ffe32ed..6e82616 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -6,17 +6,20 @@
 # See the documentation for the full license.
 """Bytecode Interpreter operations for Python 3.8
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop37 import ByteOp37
 
-# Gone in 3.8
-del ByteOp24.BREAK_LOOP
-del ByteOp24.CONTINUE_LOOP
-del ByteOp24.SETUP_LOOP
-del ByteOp24.SETUP_EXCEPT
 
 
 class ByteOp38(ByteOp37):
+    # Opcodes of earlier versions that this version does not have.
+    # These are masked here rather than deleted from the class they come from,
+    # because other versions in the same process still need that class.
+    BREAK_LOOP = None
+    CONTINUE_LOOP = None
+    SETUP_LOOP = None
+    SETUP_EXCEPT = None
+
     def __init__(self, vm):
         super(ByteOp38, self).__init__(vm)
 
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index aa92bde..84379c6 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -7,25 +7,26 @@
 
 """Bytecode Interpreter operations for Python 3.9
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
-from xpython.byteop.byteop35 import ByteOp35
-from xpython.byteop.byteop36 import ByteOp36
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop38 import ByteOp38
 
-# Gone in 3.8
-del ByteOp24.END_FINALLY
-del ByteOp35.BUILD_LIST_UNPACK
-del ByteOp35.BUILD_MAP_UNPACK
-del ByteOp35.BUILD_SET_UNPACK
-del ByteOp35.BUILD_TUPLE_UNPACK
-del ByteOp35.WITH_CLEANUP_FINISH
-del ByteOp35.WITH_CLEANUP_START
-del ByteOp36.BUILD_MAP_UNPACK_WITH_CALL
-del ByteOp38.CALL_FINALLY
-del ByteOp38.POP_FINALLY
 
 
 class ByteOp39(ByteOp38):
+    # Opcodes of earlier versions that this version does not have.
+    # These are masked here rather than deleted from the class they come from,
+    # because other versions in the same process still need that class.
+    END_FINALLY = None
+    BUILD_LIST_UNPACK = None
+    BUILD_MAP_UNPACK = None
+    BUILD_SET_UNPACK = None
+    BUILD_TUPLE_UNPACK = None
+    WITH_CLEANUP_FINISH = None
+    WITH_CLEANUP_START = None
+    BUILD_MAP_UNPACK_WITH_CALL = None
+    CALL_FINALLY = None
+    POP_FINALLY = None
+
     def __init__(self, vm) -> None:
         super(ByteOp38, self).__init__(vm)
         self.hexversion = 0x30907F0
-- 
2.43.0


From 21ad490709132afac206a54643b3b850daa4381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 06/86] fix: keep the exception being handled apart from the
 one raised last

An exception raised in a handler or finally body was replaced by the
exception it interrupted. Also finishes END_FINALLY, POP_FINALLY and
CALL_FINALLY of 3.8 and RERAISE and WITH_EXCEPT_START of 3.9.
---
 xpython/byteop/byteop.py   |  6 ++++
 xpython/byteop/byteop24.py | 13 ++++----
 xpython/byteop/byteop35.py |  1 +
 xpython/byteop/byteop38.py | 67 +++++++++++++++++++++++++-------------
 xpython/byteop/byteop39.py | 24 +++++++++-----
 xpython/pyobj.py           |  2 ++
 xpython/vm.py              | 40 ++++++++++++++++++-----
 xpython/vmtrace.py         |  4 +--
 8 files changed, 110 insertions(+), 47 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 70b27ba..233da6c 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -398,6 +398,12 @@ class ByteOpBase(object):
 
     def do_raise(self, exc, cause):
         if exc is None:  # reraise
+            if self.version_info[:2] < (3, 11):
+                exc_type = self.vm.handled_exception[0]
+                if exc_type is None:
+                    raise RuntimeError("No active exception to reraise")
+                self.vm.last_exception = self.vm.handled_exception
+                return "reraise"
             exc_type, val, _ = self.vm.last_exception
             if exc_type is None:
                 return "exception"  # error
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 6c4b1e2..43ab4c2 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -140,6 +140,8 @@ class ByteOp24(ByteOpBase):
         """
         Python 2.4ish style sys.exc_info() function.
         """
+        if self.version_info[:2] < (3, 11):
+            return self.vm.handled_exception
         return self.vm.last_exception
 
     def fmt_unary_op(vm: PyVM, _=None):
@@ -390,12 +392,6 @@ class ByteOp24(ByteOpBase):
             val = self.vm.pop()
             tb = self.vm.pop()
             self.vm.last_exception = (exctype, val, tb)
-            if self.version_info[:2] >= (3, 5):
-                block = self.vm.top_block()
-                while len(self.vm.frame.stack) > block.level:
-                    self.vm.pop()
-                self.vm.push(tb, val, exctype)
-
             why = "reraise"
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused END_FINALLY")
@@ -839,7 +835,10 @@ class ByteOp24(ByteOpBase):
         tb = None
         exctype = None
         if argc == 0:
-            exctype, val, tb = self.vm.last_exception
+            exctype, val, tb = self.vm.handled_exception
+            if exctype is None:
+                raise TypeError("exceptions must be classes, instances, or strings")
+            tb = tb or self.traceback_from_frame()
         elif argc == 1:
             exctype = self.vm.pop()
             val = AssertionError()
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 639e932..44a810e 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -170,6 +170,7 @@ class ByteOp35(ByteOp34):
             fourth, third, second = self.vm.popn(3)
             tp, exc, tb = self.vm.popn(3)
             exit_method = self.vm.pop()
+            self.vm.push(tp, exc, tb)
             self.vm.push(None)
             self.vm.push(fourth, third, second)
             block = self.vm.pop_block()
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index 6e82616..c686521 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -77,20 +77,17 @@ class ByteOp38(ByteOp37):
           the block stack.
         """
         v = self.vm.pop()
+        why = None
         if v is None:
-            why = None
+            pass
         elif isinstance(v, int):
             self.vm.jump(v)
-            why = "return"
         elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
+            # The "except-handler" block and the exception state that was saved
+            # below are taken care of when the block stack is unwound.
             val = self.vm.pop()
             tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            raise self.vm.PyVMError("END_FINALLY not finished yet")
-            # FIXME: pop 3 more values
+            self.vm.last_exception = (v, val, tb)
             why = "reraise"
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused END_FINALLY")
@@ -101,8 +98,7 @@ class ByteOp38(ByteOp37):
         increments bytecode counter by delta. Used for calling the
         "finally" block as a "subroutine".
         """
-        # Is it f_lasti or the one after that
-        self.vm.push(self.vm.frame.f_lasti)
+        self.vm.push(self.vm.frame.f_lasti + 2)
         self.vm.jump(delta)
 
     def POP_FINALLY(self, preserve_tos: int):
@@ -122,22 +118,49 @@ class ByteOp38(ByteOp37):
         continue and return in the "finally" block.
 
         """
+        preserved = self.vm.pop() if preserve_tos else None
         v = self.vm.pop()
-        if v is None:
-            why = None
+        if v is None or isinstance(v, int):
+            pass
         elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
-            val = self.vm.pop()
-            tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            # FIXME: pop 3 more values
-            why = "reraise"
-            raise self.vm.PyVMError("POP_FINALLY not finished yet")
+            self.vm.popn(2)
+            self.POP_EXCEPT()
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused POP_FINALLY")
-        return why
+        if preserve_tos:
+            self.vm.push(preserved)
+
+    def WITH_CLEANUP_START(self):
+        """Starts cleaning up the stack when a with statement block exits.
+
+        At the top of the stack are either NULL (pushed by BEGIN_FINALLY), an
+        integer (pushed by CALL_FINALLY), or 6 values pushed if an exception has
+        been raised in the with block. Below is the context manager's
+        __exit__() bound method.
+
+        Changed in 3.8: CALL_FINALLY pushes an integer
+        """
+        if isinstance(self.vm.top, int):
+            exit_method = self.vm.pop(1)
+            exit_ret = exit_method(None, None, None)
+            self.vm.push(None)
+            self.vm.push(exit_ret)
+        else:
+            super().WITH_CLEANUP_START()
+
+    def WITH_CLEANUP_FINISH(self):
+        """Finishes cleaning up the stack when a with statement block exits.
+
+        TOS is result of "exit" function call and TOS1 is the type of the
+        exception, or None. If there was an exception and the "exit" function
+        returned a true value, the exception handler block is removed and NULL
+        is left for END_FINALLY.
+        """
+        exit_result = self.vm.pop()
+        exception = self.vm.pop()
+        if exception is not None and exit_result:
+            self.POP_EXCEPT()
+            self.vm.push(None)
 
     # Changed from 2.4: Map value is TOS and map key is TOS1. Before,
     # those were reversed.
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 84379c6..b128b8f 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -49,12 +49,17 @@ class ByteOp39(ByteOp38):
     #   already been performed in parse_byte_and_args().
     ##############################################################################
 
-    def RERAISE(self, oparg: int) -> str:
-        """Re-raises the exception currently on top of the stack.  If
-        oparg is non-zero, pops an additional value from the stack
-        which is used to set f_lasti of the current frame.
+    def RERAISE(self, oparg: int = 0) -> str:
+        """Re-raises the exception currently on top of the stack. In
+        3.10, if oparg is non-zero, f_lasti of the current frame is set
+        from the block that is being left.
 
         """
+        if self.version_info[:2] < (3, 11):
+            tb, val, exctype = self.vm.popn(3)
+            self.vm.last_exception = (exctype, val, tb)
+            return "reraise"
+
         # An exception was already set up to set: self.vm.last_exception,
         # self.vm.last_type, self.vm.last_value, self.vm.last_traceback.
         # All we need to do here is note an exception return.
@@ -63,10 +68,13 @@ class ByteOp39(ByteOp38):
         return "exception"
 
     def WITH_EXCEPT_START(self) -> None:
-        # FIXME
-        raise RuntimeError("WITH_EXCEPT_START not implemented yet")
-        pass
-
+        """Calls the function in position 7 on the stack with the top three
+        items on the stack as arguments. Used to implement the call
+        context_manager.__exit__(*exc_info()) when an exception has occurred
+        in a with statement.
+        """
+        exctype, val, tb = self.vm.peek(1), self.vm.peek(2), self.vm.peek(3)
+        self.vm.push(self.vm.peek(7)(exctype, val, tb))
 
     def LOAD_ASSERTION_ERROR(self) -> None:
         """
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d1189a9..d15a44d 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -469,6 +469,8 @@ class Frame(object):
             pass
 
         self.block_stack = []
+        # The exception being handled when a generator was suspended.
+        self.handled_exception = None
         self.generator = None
         self.version = version
 
diff --git a/xpython/vm.py b/xpython/vm.py
index de0039e..38609bb 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -162,9 +162,12 @@ class PyVM(object):
         # This changes how we report a VMRuntime error.
         self.vmtest_testing = vmtest_testing
 
-        # Like sys.exc_info() tuple
+        # Like sys.exc_info() tuple, for the exception that was raised last.
         self.last_exception = None
 
+        # Like sys.exc_info() tuple, for the exception being handled.
+        self.handled_exception = (None, None, None)
+
         # Sometimes we need a native function (e.g. for method lookup), but
         # most of the time we want a VM function defined in pyobj.
         # This maps between the two.
@@ -481,11 +484,11 @@ class PyVM(object):
         while len(self.frame.stack) > block.level + offset:
             self.pop()
 
-        # Set self.last_exception which will filter its way to
-        # sys.last_exception. 3.11+ has a already set this.
+        # The exception that was being handled before the handler was entered
+        # is again the one being handled.
         if block.type == "except-handler" and self.version < (3, 11):
             tb, value, exctype = self.popn(3)
-            self.last_exception = exctype, value, tb
+            self.handled_exception = exctype, value, tb
 
     def parse_byte_and_args(self, byte_code, replay=False):
         """Parse 1 - 3 bytes of bytecode into
@@ -741,6 +744,7 @@ class PyVM(object):
             ):
                 if why == "exception":
                     exctype, value, tb = self.last_exception
+                    self.handled_exception = self.last_exception
                     self.push(tb, value, exctype)
                 else:
                     if why in ("return", "continue"):
@@ -755,8 +759,10 @@ class PyVM(object):
             if why == "exception" and block.type in ["setup-except", "finally"]:
                 self.push_block("except-handler")
                 exc_type, exc_value, exc_traceback = self.last_exception
-                # FIXME: start here - is this right for 2.7?
-                self.push(exc_traceback, exc_value, exc_type)
+                # unwind_block() restores these when the handler is left.
+                prev_type, prev_value, prev_traceback = self.handled_exception
+                self.push(prev_traceback, prev_value, prev_type)
+                self.handled_exception = self.last_exception
                 why = None
 
                 # Make the raw exception data available to the
@@ -801,6 +807,24 @@ class PyVM(object):
 
         return why
 
+    def enter_exception_state(self, frame):
+        """Set the exception that is being handled when `frame` starts or resumes,
+        and return the one to go back to when it is left.
+        """
+        handled_exception = self.handled_exception
+        if frame.handled_exception is not None:
+            # A generator that was suspended inside an exception handler.
+            self.handled_exception = frame.handled_exception
+        return handled_exception
+
+    def leave_exception_state(self, frame, handled_exception):
+        """Undo enter_exception_state()."""
+        if any(block.type == "except-handler" for block in frame.block_stack):
+            frame.handled_exception = self.handled_exception
+        else:
+            frame.handled_exception = None
+        self.handled_exception = handled_exception
+
     def propagate_exception(self):
         """The frame that was just popped was left by an exception. Raise that
         exception in the calling frame or, when there is no calling frame,
@@ -844,6 +868,7 @@ class PyVM(object):
             byte_code = byteint(self.f_code.co_code[frame.f_lasti])
             # byte_code == opcode["YIELD_VALUE"]?
 
+        handled_exception = self.enter_exception_state(frame)
         self.push_frame(frame)
         offset = 0
         while True:
@@ -905,8 +930,7 @@ class PyVM(object):
             if why:
                 break
 
-        # TODO: handle generator exception state
-
+        self.leave_exception_state(frame, handled_exception)
         self.pop_frame()
 
         if why == "exception":
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 8df8cd5..171d926 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -160,6 +160,7 @@ class PyVMTraced(PyVM):
         result = None
         # End extra tracing code
 
+        handled_exception = self.enter_exception_state(frame)
         self.f_code = frame.f_code
         if frame.f_lasti == -1:
             # We were started new, not yielded back from.
@@ -345,8 +346,7 @@ class PyVMTraced(PyVM):
             pass
         # End extra tracing code
 
-        # TODO: handle generator exception state
-
+        self.leave_exception_state(frame, handled_exception)
         self.pop_frame()
 
         if why == "exception":
-- 
2.43.0


From 2a28b6a04854da41c691db06e09d2dbe34027155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 07/86] fix: with statement of 2.5 and 3.1, where __exit__ is
 on top of the stack

---
 xpython/byteop/byteop25.py | 12 ++++++++++++
 xpython/byteop/byteop31.py | 16 ++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 5313e76..6a4ccfb 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -43,6 +43,18 @@ class ByteOp25(ByteOp24):
         # is buried in the stack, and where depends on what's on top of it.
         # Pull out the exit function, and leave the rest in place.
         # In Python 3.x this is fixed up so that the __exit__ function is TOS
+        if self.version_info[:2] < (2, 6):
+            # In 2.5 the __exit__ function is TOS.
+            exit_func = self.vm.pop()
+            u = self.vm.top
+            if u in ("return", "continue"):
+                count = 2
+            elif u is None or isinstance(u, str):
+                count = 1
+            else:
+                count = 3
+            self.vm.frame.stack.insert(-count, exit_func)
+
         v = w = None
         u = self.vm.top
         if u is None:
diff --git a/xpython/byteop/byteop31.py b/xpython/byteop/byteop31.py
index 697ede5..4200d38 100644
--- a/xpython/byteop/byteop31.py
+++ b/xpython/byteop/byteop31.py
@@ -26,6 +26,22 @@ class ByteOp31(ByteOp32):
         for _ in range(2):
             self.vm.push(*items)
 
+    # Changed in 3.2.
+    def WITH_CLEANUP(self):
+        """Cleans up the stack when a `with` statement block exits. TOS is the
+        context manager's `__exit__()` bound method, which is removed. Below it
+        are the 1-3 values described in the 3.2 WITH_CLEANUP.
+        """
+        exit_func = self.vm.pop()
+        u = self.vm.top
+        if u is None or isinstance(u, str):
+            exit_func(None, None, None)
+        else:
+            exit_ret = exit_func(u, self.vm.peek(2), self.vm.peek(3))
+            if exit_ret:
+                # An error occurred, and was suppressed
+                self.vm.push("silenced")
+
 
 if __name__ == "__main__":
     x = ByteOp31(None)
-- 
2.43.0


From 3b6a2b71519524d5bfbd278a4598dfff67da3a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 08/86] fix: reporting an exception for the log must not itself
 fail

---
 xpython/vm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 38609bb..6aa190f 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -117,7 +117,7 @@ def format_instruction(
     elif int_arg is None:
         argrepr = ""
     elif byte_code in opc.COMPARE_OPS:
-        if vm.version >= (3, 12):
+        if opc.version_tuple >= (3, 12):
             int_arg >>= 4
         argrepr = opc.cmp_op[int_arg]
     elif isinstance(arguments, list) and arguments:
@@ -688,7 +688,10 @@ class PyVM(object):
 
             # FIXME: dry code
             if not self.in_exception_processing:
-                if self.last_exception[0] != SystemExit:
+                # Operands may be gone from the stack here, so don't show those.
+                if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                    logging.INFO
+                ):
                     log.info(
                         (
                             "exception in the execution of "
@@ -702,7 +705,6 @@ class PyVM(object):
                                 offset,
                                 line_number,
                                 False,
-                                vm=self,
                             )
                         )
                     )
@@ -897,7 +899,9 @@ class PyVM(object):
 
                 if not self.in_exception_processing:
                     # FIXME: DRY code
-                    if self.last_exception[0] != SystemExit:
+                    if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                        logging.INFO
+                    ):
                         log.info(
                             (
                                 "exception in the execution of "
-- 
2.43.0


From 5f415b1dccebfe4af49d11fe775a67a3b4e83234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 09/86] fix: report an uncaught exception without failing in
 the report

---
 xpython/vm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 6aa190f..54f4d51 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -450,13 +450,14 @@ class PyVM(object):
             return 1
 
         except Exception:
-            if self.last_traceback:
+            # When this code is run by interpreted code, that can catch it.
+            if self.last_traceback and not self.frames:
                 self.last_traceback.print_tb()
                 print(f"{self.last_exception[0].__name__}", end="")
                 le1 = self.last_exception[1]
                 tail = ""
                 if le1:
-                    tail = "\n".join(le1.args)
+                    tail = "\n".join(str(arg) for arg in le1.args)
                 print(tail)
             raise
 
@@ -773,7 +774,6 @@ class PyVM(object):
 
                 # PyErr_NormalizeException goes here
                 self.jump(block.handler)
-                self.last_traceback = exc_traceback
                 self.push(exc_traceback, exc_value, exc_type)
                 return why
 
-- 
2.43.0


From fde56af0d18d89bfc75dec00e63491400ee3b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 10/86] fix: LOAD_METHOD of a missing attribute raises
 AttributeError

---
 xpython/byteop/byteop37.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 2e01bea..15a87da 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -81,16 +81,11 @@ class ByteOp37(ByteOp36):
         """
         TOS = self.vm.pop()
 
-        if hasattr(TOS, name):
-            # FIXME: Figure out how to get an unbound method and self from a callable function.
-            # Until then, we need to push NULL and the callable (the default slow path).
-            function = getattr(TOS, name)
-            if not callable(function):
-                raise self.vm.PyVMError(f"LOAD_METHOD {name} off of {TOS} of type {type(TOS)} is not callable.")
-            self.vm.push(NULL)
-            self.vm.push(function)
-        else:
-            raise self.vm.PyVMError(f"LOAD_METHOD can't find {name} off of {TOS} of type {type(TOS)}")
+        # FIXME: Figure out how to get an unbound method and self from a callable function.
+        # Until then, we need to push NULL and the callable (the default slow path).
+        function = getattr(TOS, name)
+        self.vm.push(NULL)
+        self.vm.push(function)
 
     def CALL_METHOD(self, count):
         """Calls a method. argc is the number of positional
-- 
2.43.0


From b98b12ab24feece282cced211c515fbdf8b0e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 11/86] fix: a generator that has finished or failed stays
 finished

---
 xpython/pyobj.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d15a44d..6dcbe9f 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -566,14 +566,25 @@ class Generator(object):
         return self.send(None)
 
     def send(self, value=None):
+        if self.gi_running:
+            raise ValueError("generator already executing")
+        if self.finished:
+            raise StopIteration
         if not self.started and value is not None:
             raise TypeError("Can't send non-None value to a just-started generator")
-        self.gi_frame.stack.append(value)
+        # Before 2.5, yield is a statement and there is no value to be popped.
+        if not self.started or self.vm.version >= (2, 5):
+            self.gi_frame.stack.append(value)
         self.started = True
-        self.running = True
-        val = self.vm.resume_frame(self.gi_frame)
+        self.gi_running = True
+        try:
+            val = self.vm.resume_frame(self.gi_frame)
+        except BaseException:
+            self.finished = True
+            raise
+        finally:
+            self.gi_running = False
         if self.finished:
-            self.running = False
             raise StopIteration(val)
         return val
 
-- 
2.43.0


From 383da93d30509956ea52c8281ed22e83a5614045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 12/86] fix: a call must not replace the caller's cells of the
 same name

---
 xpython/pyobj.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 6dcbe9f..cb8217d 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -438,12 +438,9 @@ class Frame(object):
 
         if f_code.co_cellvars:
             self.cells = {}
-            if not f_back.cells:
-                f_back.cells = {}
             for var in f_code.co_cellvars:
                 # Make a cell for the variable in our locals, or None.
-                cell = Cell(self.f_locals.get(var))
-                f_back.cells[var] = self.cells[var] = cell
+                self.cells[var] = Cell(self.f_locals.get(var))
         else:
             self.cells = None
 
-- 
2.43.0


From ee14034585e5d479aab8c6dfe96e8e9474628f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 13/86] fix: call class methods, and methods whose arguments
 come as a tuple

---
 xpython/byteop/byteop.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 233da6c..db25f66 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -147,19 +147,22 @@ class ByteOpBase(object):
 
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
+        pos_args = list(pos_args)
         if hasattr(func, "im_func"):
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
             # The first parameter must be the correct type.
-            if not isinstance(pos_args[0], func.im_class):
+            elif not pos_args or not isinstance(pos_args[0], func.im_class):
                 raise TypeError(
                     "unbound method %s() must be called with %s instance "
-                    "as first argument (got %s instance instead)"
+                    "as first argument (got %s instead)"
                     % (
                         func.im_func.func_name,
                         func.im_class.__name__,
-                        type(pos_args[0]).__name__,
+                        f"{type(pos_args[0]).__name__} instance"
+                        if pos_args
+                        else "nothing",
                     )
                 )
             func = func.im_func
-- 
2.43.0


From 668068c5384af60a305bd41a6fbeff3371fd7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 14/86] fix: super() finds attributes of the superclasses

---
 xpython/builtins.py      | 66 +++++++++++-----------------------------
 xpython/byteop/byteop.py |  2 +-
 2 files changed, 19 insertions(+), 49 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 4785643..0f01366 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -91,7 +91,7 @@ def build_class(opc, func, name, *bases, **kwds):
 
     # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
     # but needs a builtin cell object. make_cell() can do this.
-    if "__classcell__" in namespace and metaclass == type:
+    if isinstance(namespace.get("__classcell__"), Cell):
         namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
 
     try:
@@ -112,55 +112,25 @@ def build_class(opc, func, name, *bases, **kwds):
     return cls
 
 
-# FIXME: change to return a true Proxy object.
-def builtin_super(self: Any, typ=None, obj=None):
+def builtin_super(frame: Any, *args):
     """
-    super() but first argument is filled in via interpreter
+    super() where the arguments that are not given are found in the interpreter's
+    frame rather than in the frame of the Python that runs the interpreter.
     """
-    cells = self.cells
-    if hasattr(cells, "__class__"):
-        cell = cells["__class__"]
-    elif hasattr(cells, "__classcell__"):
-        cell = cells["__classcell__"]
-
-    start_class = cell.get()
-    return WrappedSuperClass(start_class, typ, obj)
-
-    return None
-
-
-class WrappedSuperClass(object):
-    """
-    builtin "super" object return type. This is a
-    proxy object that delegates method calls to a parent or sibling class of ``type``.
-    See https://docs.python.org/3.7/library/functions.html#super
-    """
-
-    def __init__(self, start_class, typ, obj: Any):
-        if obj is not None:
-            assert isinstance(obj, typ)
-
-        self.type_given = typ is not None
-        if self.type_given:
-            start_class = typ
-        self.start_class = start_class
-        self.superclass = start_class.__mro__[1]
-        self.__orig_init__ = self.superclass.__init__
-        self.__init__ = self.init
-        self.object = obj
-        self.type = typ
-
-    def __repr__(self):
-        if self.type_given is not None and self.object is None:
-            obj_str = "NULL"
-        elif self.object is not None:
-            obj_str = f"<{self.object.__class__.__name__} object>"
-        else:
-            obj_str = repr(self.type)
-        return f"<super: <class '{self.start_class.__name__}'>, {obj_str}>"
-
-    def init(self, *args, **kwargs):
-        return self.__orig_init__(self, *args, **kwargs)
+    if args:
+        return super(*args)
+    cells = frame.cells or {}
+    if "__class__" not in cells:
+        raise RuntimeError("super(): __class__ cell not found")
+    code = frame.f_code
+    if not code.co_argcount:
+        raise RuntimeError("super(): no arguments")
+    first_arg = code.co_varnames[0]
+    if first_arg in frame.f_locals:
+        obj = frame.f_locals[first_arg]
+    else:
+        obj = cells[first_arg].get()
+    return super(cells["__class__"].get(), obj)
 
 
 # From Pypy 3.6
diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index db25f66..4136956 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -328,7 +328,7 @@ class ByteOpBase(object):
         ):
             log.debug(f"calling native function {func.__name__}")
         elif inspect.isclass(func):
-            if func.__name__ == "super":
+            if func is super:
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
 
-- 
2.43.0


From fe3e08dd1d9b5232d582a756ae643d07c460198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 15/86] fix: UNPACK_SEQUENCE takes any iterable and checks the
 number of values

---
 xpython/byteop/byteop24.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 43ab4c2..35b1b1b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -9,6 +9,7 @@ import operator
 import sys
 from collections import namedtuple
 from copy import copy
+from itertools import islice
 from typing import Any, Optional
 
 from xpython.byteop.byteop import (
@@ -433,9 +434,19 @@ class ByteOp24(ByteOpBase):
         """Unpacks TOS into count individual values, which are put onto the
         stack right-to-left.
         """
-        seq = self.vm.pop()
-        for x in reversed(seq):
-            self.vm.push(x)
+        self.vm.push(*reversed(self.unpack_iterable(self.vm.pop(), count)))
+
+    def unpack_iterable(self, iterable, count: int) -> list:
+        """Returns the `count` values of `iterable`, which has to have that many."""
+        iterator = iter(iterable)
+        values = list(islice(iterator, count))
+        if len(values) < count:
+            raise ValueError(
+                f"not enough values to unpack (expected {count}, got {len(values)})"
+            )
+        for _ in iterator:
+            raise ValueError(f"too many values to unpack (expected {count})")
+        return values
 
     def DUP_TOPX(self, count: int):
         """
-- 
2.43.0


From 0026379f6dc54ccd78cecdc54e6b15355072aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 16/86] fix: implement UNPACK_EX

---
 xpython/byteop/byteop32.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 4f572df..0bc04b7 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -66,6 +66,30 @@ class ByteOp32(ByteOp27):
             )
         self.vm.unwind_block(block)
 
+    # New in 3.0
+    def UNPACK_EX(self, counts: int):
+        """
+        Implements assignment with a starred target: Unpacks an iterable in TOS
+        into individual values, where the total number of values can be smaller
+        than the number of items in the iterable: one of the new values will be
+        a list of all leftover items.
+
+        The low byte of counts is the number of values before the list value,
+        the high byte of counts the number of values after it. The resulting
+        values are put onto the stack right-to-left.
+        """
+        after, before = divmod(counts, 256)
+        values = list(self.vm.pop())
+        if len(values) < before + after:
+            raise ValueError(
+                f"not enough values to unpack (expected at least {before + after}, "
+                f"got {len(values)})"
+            )
+        end = len(values) - after
+        self.vm.push(*reversed(values[end:]))
+        self.vm.push(values[before:end])
+        self.vm.push(*reversed(values[:before]))
+
     def LOAD_BUILD_CLASS(self):
         """Pushes builtins.__build_class__() onto the stack. It is
         later called by CALL_FUNCTION to construct a class."""
-- 
2.43.0


From 77013ddb000f4cbb6690721dac71405e595d0dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 17/86] fix: raise of something that is not an exception is a
 TypeError

---
 xpython/byteop/byteop.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 4136956..c20b227 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -413,7 +413,7 @@ class ByteOpBase(object):
             else:
                 return "reraise"
 
-        elif type(exc) is type:
+        elif isinstance(exc, type) and issubclass(exc, BaseException):
             # As in `raise ValueError`
             exc_type = exc
             val = exc()  # Make an instance.
@@ -422,16 +422,16 @@ class ByteOpBase(object):
             exc_type = type(exc)
             val = exc
         else:
-            return "exception"  # error
+            raise TypeError("exceptions must derive from BaseException")
 
         # If you reach this point, you're guaranteed that
         # val is a valid exception instance and exc_type is its class.
         # Now do a similar thing for the cause, if present.
         if cause:
-            if type(cause) is type:
+            if isinstance(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
             elif not isinstance(cause, BaseException):
-                return "exception"  # error
+                raise TypeError("exception causes must derive from BaseException")
 
             val.__cause__ = cause
 
-- 
2.43.0


From b7d0c428c4f20c41042657d8b34d49e2ac690eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 18/86] fix: in 2.x raise a class or a class and a value

---
 xpython/byteop/byteop24.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 35b1b1b..cdb8a07 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -852,26 +852,27 @@ class ByteOp24(ByteOpBase):
             tb = tb or self.traceback_from_frame()
         elif argc == 1:
             exctype = self.vm.pop()
-            val = AssertionError()
+            val = None
         elif argc == 2:
             val = self.vm.pop()
-            # Investigate: right now we see this *only* in 2.6.
-            # Can it happen in other bytecode versions?
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
             exctype = self.vm.pop()
         elif argc == 3:
             tb = self.vm.pop()
             val = self.vm.pop()
-            # See comment above
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
             exctype = self.vm.pop()
 
         # There are a number of forms of "raise", normalize them somewhat.
         if isinstance(exctype, BaseException):
             val = exctype
             exctype = type(val)
+        elif not (isinstance(exctype, type) and issubclass(exctype, BaseException)):
+            raise TypeError("exceptions must be classes or instances")
+        elif val is None:
+            val = exctype()
+        elif isinstance(val, tuple):
+            val = exctype(*val)
+        elif not isinstance(val, exctype):
+            val = exctype(val)
 
         self.vm.last_exception = (exctype, val, tb)
 
-- 
2.43.0


From 8231ce61eebeb1bed54413346f758d5f6e981dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 19/86] fix: locals() has no __locals__ entry

---
 xpython/builtins.py | 2 ++
 xpython/vm.py       | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 0f01366..c51ee7b 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -77,6 +77,8 @@ def build_class(opc, func, name, *bases, **kwds):
     # between Python 3.5 running 3.4 or earlier.
     frame = func._vm.make_frame(
         code=class_body_code,
+        # Before 3.4, the namespace is an argument that STORE_LOCALS installs.
+        callargs={"__locals__": namespace} if opc.version_tuple < (3, 4) else {},
         f_globals=func.func_globals,
         f_locals=namespace,
         closure=func.__closure__,
diff --git a/xpython/vm.py b/xpython/vm.py
index 54f4d51..97364a5 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -352,7 +352,7 @@ class PyVM(object):
 
         # Implement NEWLOCALS flag. See Objects/frameobject.c in CPython.
         if code.co_flags & CO_NEWLOCALS:
-            f_locals = {"__locals__": {}}
+            f_locals = {}
 
         f_locals.update(callargs)
 
-- 
2.43.0


From e7470385729fddc1177d527a0b1c96c04ab1e465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 20/86] fix: closures of 2.4 and 2.5 share the variables of the
 enclosing function

MAKE_CLOSURE looked the free variables up by name, which finds neither the
cells of the enclosing function nor later changes to them, and left the cells
that LOAD_CLOSURE had pushed on the stack.
---
 xpython/byteop/byteop24.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index cdb8a07..774b8c8 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -18,7 +18,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.pyobj import Cell, Function, Traceback
+from xpython.pyobj import Function, Traceback
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -797,13 +797,18 @@ class ByteOp24(ByteOpBase):
         function also has argc default parameters, where are found
         before the cells.
 
+        In 2.5, the cells come in a tuple.
+
         Changed in 2.6
         """
         code = self.vm.pop()
+        if self.version_info[:2] >= (2, 5):
+            closure = self.vm.pop()
+        else:
+            closure = tuple(self.vm.popn(len(code.co_freevars)))
         defaults = self.vm.popn(argc)
         globs = self.vm.frame.f_globals
 
-        closure = tuple([Cell(self.lookup_name(var)) for var in code.co_freevars])
         fn = Function(
             name=None,
             code=code,
-- 
2.43.0


From 6aa35e13f2587664e1bd9ac1cb95194d7e369b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 21/86] fix: unbound variables are reported as such

A free variable that is not bound yet was read as None, deleting an unbound
variable raised KeyError, DELETE_DEREF was missing and LOAD_CLASSDEREF
did not look at the locals of the class body.
---
 xpython/builtins.py         |  4 +++-
 xpython/byteop/byteop24.py  | 25 ++++++++++++++++++++++++-
 xpython/byteop/byteop311.py |  6 ++++--
 xpython/byteop/byteop32.py  |  7 ++++---
 xpython/byteop/byteop34.py  |  5 ++++-
 xpython/pyobj.py            | 10 ++++++++--
 6 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index c51ee7b..6b4fd06 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -94,7 +94,7 @@ def build_class(opc, func, name, *bases, **kwds):
     # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
     # but needs a builtin cell object. make_cell() can do this.
     if isinstance(namespace.get("__classcell__"), Cell):
-        namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
+        namespace["__classcell__"] = make_cell(None)
 
     try:
         cls = metaclass(name, bases, namespace)
@@ -132,6 +132,8 @@ def builtin_super(frame: Any, *args):
         obj = frame.f_locals[first_arg]
     else:
         obj = cells[first_arg].get()
+    if not cells["__class__"].is_bound():
+        raise RuntimeError("super(): empty __class__ cell")
     return super(cells["__class__"].get(), obj)
 
 
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 774b8c8..68564a8 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -423,11 +423,15 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_GLOBAL(self, name):
         """Implements del name, where name in global."""
+        if name not in self.vm.frame.f_globals:
+            raise NameError(f"global name '{name}' is not defined")
         del self.vm.frame.f_globals[name]
 
     def DELETE_NAME(self, name):
         """Implements del name, where name is the index into co_names
         attribute of the code object."""
+        if name not in self.vm.frame.f_locals:
+            raise NameError(f"name '{name}' is not defined")
         del self.vm.frame.f_locals[name]
 
     def UNPACK_SEQUENCE(self, count):
@@ -729,6 +733,10 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_FAST(self, var_num):
         """Deletes local co_varnames[var_num]."""
+        if var_num not in self.vm.frame.f_locals:
+            raise UnboundLocalError(
+                f"local variable '{var_num}' referenced before assignment"
+            )
         del self.vm.frame.f_locals[var_num]
 
     def LOAD_CLOSURE(self, i):
@@ -745,7 +753,22 @@ class ByteOp24(ByteOpBase):
         storage. Pushes a reference to the object the cell contains on the
         stack.
         """
-        self.vm.push(self.vm.frame.cells[name].get())
+        self.vm.push(self.cell_contents(name))
+
+    def cell_contents(self, name):
+        """Returns the value of the cell or free variable `name`, which has to have one."""
+        frame = self.vm.frame
+        cell = frame.cells[name]
+        if not cell.is_bound():
+            if name in (frame.f_code.co_freevars or ()):
+                raise NameError(
+                    f"free variable '{name}' referenced before assignment in "
+                    "enclosing scope"
+                )
+            raise UnboundLocalError(
+                f"local variable '{name}' referenced before assignment"
+            )
+        return cell.get()
 
     def STORE_DEREF(self, name):
         """Stores TOS into the cell contained in slot i of the cell
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index ca98958..b12e866 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -22,7 +22,7 @@ from xpython.byteop.byteop36 import (
 from xpython.builtins import build_class, builtin_super
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310
-from xpython.pyobj import Function
+from xpython.pyobj import Cell, Function
 
 log = logging.getLogger(__name__)
 
@@ -375,7 +375,9 @@ class ByteOp311(ByteOp310):
         #     goto resume_with_error;
         # }
         # SETLOCAL(oparg, cell);
-        self.vm.frame.cells[name].set(self.vm.frame.f_locals.get(name, None))
+        self.vm.frame.cells[name].set(
+            self.vm.frame.f_locals.get(name, Cell.UNBOUND)
+        )
         return
 
     # Changed in 3.11...
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 0bc04b7..bade838 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -6,7 +6,7 @@ import inspect
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
-from xpython.pyobj import Function
+from xpython.pyobj import Cell, Function
 
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
@@ -42,10 +42,11 @@ class ByteOp32(ByteOp27):
     def convert_native_to_Function(self, frame, func):
         assert inspect.isfunction(func) or isinstance(func, Function)
 
-    def DELETE_DEREF(self, i):
+    def DELETE_DEREF(self, name):
         """Empties the cell contained in slot i of the cell and free
         variable storage. Used by the del statement."""
-        raise self.vm.PyVMError("DELETE_DEREF not implemented")
+        self.cell_contents(name)
+        self.vm.frame.cells[name].set(Cell.UNBOUND)
 
     def DUP_TOP_TWO(self):
         """Duplicates the reference on top of the stack."""
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index 1602b3b..34eb5f3 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -33,7 +33,10 @@ class ByteOp34(ByteOp33):
         consulting the cell. This is used for loading free variables in class
         bodies.
         """
-        self.vm.push(self.vm.frame.cells[count].get())
+        f_locals = self.vm.frame.f_locals
+        self.vm.push(
+            f_locals[count] if count in f_locals else self.cell_contents(count)
+        )
 
     ##############################################################################
     # Order of function here is the same as in:
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index cb8217d..cb040a7 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -345,12 +345,18 @@ class Cell:
 
     """
 
+    # What a cell contains before its variable is bound, or after a "del".
+    UNBOUND = type("Unbound", (), {"__repr__": lambda self: "<unbound>"})()
+
     def __init__(self, value) -> None:
         self.contents = value
 
     def get(self):
         return self.contents
 
+    def is_bound(self) -> bool:
+        return self.contents is not Cell.UNBOUND
+
     def set(self, value) -> None:
         self.contents = value
 
@@ -439,8 +445,8 @@ class Frame(object):
         if f_code.co_cellvars:
             self.cells = {}
             for var in f_code.co_cellvars:
-                # Make a cell for the variable in our locals, or None.
-                self.cells[var] = Cell(self.f_locals.get(var))
+                # Make a cell for the variable in our locals, or an empty one.
+                self.cells[var] = Cell(self.f_locals.get(var, Cell.UNBOUND))
         else:
             self.cells = None
 
-- 
2.43.0


From 5bcf2f85de3ecc37d513a5a6e6ede4c984485437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 22/86] fix: keyword arguments named "self" and "func"

---
 xpython/pyobj.py           | 7 +++++--
 xpython/stdlib/inspect2.py | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index cb040a7..4624371 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -241,7 +241,9 @@ class Function:
         else:
             return self
 
-    def __call__(self, *args, **kwargs):
+    def __call__(*args, **kwargs):
+        # "self" is in args, because it may also be the name of a keyword argument.
+        self, *args = args
         if self.has_dot_zero:
             # D'oh! http://bugs.python.org/issue19611 Py2 doesn't know how to
             # inspect set comprehensions, dict comprehensions, or generator
@@ -318,7 +320,8 @@ class Method(object):
         else:
             return f"<Unbound Method {name}>"
 
-    def __call__(self, *args, **kwargs):
+    def __call__(*args, **kwargs):
+        self, *args = args
         if self.im_self is not None:
             return self.im_func(self.im_self, *args, **kwargs)
         else:
diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 983ec6d..f4dff31 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -116,12 +116,14 @@ def getargspec(func) -> ArgSpec:
 ArgInfo = namedtuple("ArgInfo", "args varargs keywords locals")
 
 
-def getcallargs(func, *positional, **named):
+def getcallargs(*func_and_positional, **named):
     """Get the mapping of arguments to values.
 
     A dict is returned, with keys the function argument names (including the
     names of the * and ** arguments, if any), and values the respective bound
     values from 'positional' and 'named'."""
+    func = func_and_positional[0]
+    positional = func_and_positional[1:]
     args, varargs, varkw, defaults = getargspec(func)
     f_name = func.__name__
     arg2value = {}
-- 
2.43.0


From d8c5c2738594b9de415e0dad36d75157d54774e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 23/86] fix: positional-only parameters cannot be passed by
 keyword

---
 xpython/stdlib/inspect3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/stdlib/inspect3.py b/xpython/stdlib/inspect3.py
index 35d5a85..95818ec 100644
--- a/xpython/stdlib/inspect3.py
+++ b/xpython/stdlib/inspect3.py
@@ -251,7 +251,8 @@ def getcallargs(*func_and_positional, **named):
         arg2value[args[i]] = positional[i]
     if varargs:
         arg2value[varargs] = tuple(positional[n:])
-    possible_kwargs = set(args + kwonlyargs)
+    num_posonly = getattr(func.__code__, "co_posonlyargcount", None) or 0
+    possible_kwargs = set(args[num_posonly:] + kwonlyargs)
     if varkw:
         arg2value[varkw] = {}
     for kw, value in named.items():
-- 
2.43.0


From dfcbda789d192008822261577b56daf109e7e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 24/86] fix: duplicate keyword arguments in a call are a
 TypeError

They were accepted silently before 3.9, and a RuntimeError from 3.9 on. Also
several empty mappings in a call left the stack short.
---
 xpython/byteop/byteop.py   | 16 +++++++++++++++-
 xpython/byteop/byteop35.py | 11 +++++------
 xpython/byteop/byteop36.py | 11 +++++------
 xpython/byteop/byteop39.py |  7 ++-----
 4 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index c20b227..9627b18 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -335,17 +335,31 @@ class ByteOpBase(object):
         retval = func(*pos_args, **named_args)
         self.vm.push(retval)
 
+    def merge_keyword_args(self, func, named_args: dict, keyword_args) -> None:
+        """Adds `keyword_args` to `named_args`, the arguments for a call of `func`."""
+        if not hasattr(keyword_args, "keys"):
+            raise TypeError(
+                f"{getattr(func, '__name__', func)}() argument after ** must be a mapping"
+            )
+        for key in keyword_args.keys():
+            if key in named_args:
+                raise TypeError(
+                    f"{getattr(func, '__name__', func)}() got multiple values for "
+                    f"keyword argument '{key}'"
+                )
+            named_args[key] = keyword_args[key]
+
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
         named_args = {}
         len_kw, len_pos = divmod(argc, 256)
         for i in range(len_kw):
             key, val = self.vm.popn(2)
             named_args[key] = val
-        named_args.update(keyword_args)
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
 
         func = self.vm.pop()
+        self.merge_keyword_args(func, named_args, keyword_args)
         return self.call_function_with_args_resolved(func, pos_args, named_args)
 
     def convert_native_to_Function(self, frame, func: Callable) -> Callable:
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 44a810e..5a6aa64 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -254,16 +254,15 @@ class ByteOp35(ByteOp34):
         fn_pos -= 1
 
         elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
         func = self.vm.pop(fn_pos)
 
+        kwargs = {}
+        for elt in elts:
+            self.merge_keyword_args(func, kwargs, elt)
+
         # Put everything in the right order for CALL_FUNCTION_KW
         self.vm.push(func)
-        if kwargs:
-            self.vm.push(kwargs)
+        self.vm.push(kwargs)
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """Calls a callable object, similarly to `CALL_FUNCTION_VAR` and
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index af327b8..ca35ad4 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -110,19 +110,18 @@ class ByteOp36(ByteOp35):
         fn_pos = 0
 
         elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
 
         posargs = self.vm.pop()
         func = self.vm.pop(fn_pos)
 
+        kwargs = {}
+        for elt in elts:
+            self.merge_keyword_args(func, kwargs, elt)
+
         # Put everything in the right order for CALL_FUNCTION_EX
         self.vm.push(func)
         self.vm.push(posargs)
-        if kwargs:
-            self.vm.push(kwargs)
+        self.vm.push(kwargs)
 
     def CALL_FUNCTION_KW(self, argc: int):
         """
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index b128b8f..98325b5 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -134,13 +134,10 @@ class ByteOp39(ByteOp38):
     def DICT_MERGE(self, i) -> None:
         """Like DICT_UPDATE but raises an exception for duplicate keys."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        dups = set(destination.keys()) & set(TOS.keys())
-        if bool(dups):
-            raise RuntimeError(f"Duplicate keys '{dups}' in DICT_MERGE")
-        destination.update(TOS)
+        # The function to be called is below the positional arguments.
+        self.merge_keyword_args(self.vm.peek(i + 2), destination, TOS)
 
     def DICT_UPDATE(self, i) -> None:
         """Calls dict.update(TOS1[-i], TOS). Used to build dicts."""
-- 
2.43.0


From 607b0a61c480e7ce9c7ed84ea9301ba88b609770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 25/86] fix: defaults and annotations of functions before 3.6

Annotations were taken from the wrong place of the stack, or counted wrong.
Keyword-only defaults are above the positional ones only since 3.4. The name
of a 3.3 closure or 3.4 function was its qualified name.
---
 xpython/byteop/byteop32.py | 78 +++++++++++++++-----------------------
 xpython/byteop/byteop33.py | 50 ++----------------------
 xpython/byteop/byteop34.py | 36 ++----------------
 3 files changed, 37 insertions(+), 127 deletions(-)

diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index bade838..9ef828e 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -3,7 +3,6 @@
 """
 import inspect
 
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Cell, Function
@@ -96,6 +95,35 @@ class ByteOp32(ByteOp27):
         later called by CALL_FUNCTION to construct a class."""
         self.vm.push(__build_class__)
 
+    def pop_function_slots(self, argc: int):
+        """
+        Pops what is below the code (and the closure) for MAKE_FUNCTION and
+        MAKE_CLOSURE, and returns the defaults, the keyword-only defaults and
+        the annotations.
+
+        The annotations are on top. The positional defaults are above the
+        keyword-only ones, until 3.4 swaps those.
+        """
+        default_count = argc & 0xFF
+        kw_default_count = (argc >> 8) & 0xFF
+
+        annotations = {}
+        if argc >> 16:
+            annotate_names = self.vm.pop()
+            annotations = dict(
+                zip(annotate_names, self.vm.popn(len(annotate_names)))
+            )
+
+        if self.version_info[:2] < (3, 4):
+            defaults = self.vm.popn(default_count)
+            kw_default_pairs = self.vm.popn(2 * kw_default_count)
+        else:
+            kw_default_pairs = self.vm.popn(2 * kw_default_count)
+            defaults = self.vm.popn(default_count)
+
+        kwdefaults = dict(zip(kw_default_pairs[::2], kw_default_pairs[1::2]))
+        return tuple(defaults), kwdefaults, annotations
+
     def MAKE_CLOSURE(self, argc: int):
         """
         Creates a new function object, sets its ``__closure__`` slot, and
@@ -105,30 +133,9 @@ class ByteOp32(ByteOp27):
         variables. The function asl has ``argc`` default parameters,
         which are found below the cells.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
         closure, code = self.vm.popn(2)
 
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
@@ -166,33 +173,10 @@ class ByteOp32(ByteOp27):
 
         Changed from Python 2.4.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
         code = self.vm.pop()
         name = code.co_name
 
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_names)
-            assert n == len(annotate_objects)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 21d8770..2fa6408 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -2,7 +2,6 @@
 """Byte Interpreter operations for Python 3.3
 """
 
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
 from xpython.pyobj import Function, Generator
@@ -23,38 +22,17 @@ class ByteOp33(ByteOp32):
         variables. The function also has ``argc`` default parameters,
         which are found below the cells.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
         code, name = self.vm.popn(2)
         closure = self.vm.pop()
 
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
         globs = self.vm.frame.f_globals
 
         fn = Function(
-            name=name,
+            name=code.co_name,
             code=code,
             globs=globs,
             argdefs=tuple(defaults),
@@ -82,35 +60,13 @@ class ByteOp33(ByteOp32):
           3.0..3.2)
         * the qualified name of the function (at TOS if 3.3+)
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
         # The string function name does not seem to be used.
         # In the 3.4, it is dropped.
         self.vm.pop()
         code = self.vm.pop()
         name = code.co_name
 
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_objects = self.vm.popn(annotate_count)
-            n = len(annotate_objects)
-            assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index 34eb5f3..09ae564 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -4,7 +4,6 @@
 import inspect
 import types
 
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xdis.version_info import IS_PYPY, PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
@@ -68,45 +67,16 @@ class ByteOp34(ByteOp33):
         * the qualified name of the function (at TOS)
         """
 
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
         name = self.vm.pop()
         code = self.vm.pop()
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_objects)
-            # We can annotate a function return value, but
-            # that does is not a parameter object and not
-            # listed in annotate_objects
-            if annotate_names[-1] == "return":
-                assert n == len(annotate_names) - 1
-            else:
-                assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        defaults, kwdefaults, annotations = self.pop_function_slots(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
         globs = self.vm.frame.f_globals
 
         fn = Function(
-            name=name,
+            name=code.co_name,
             code=code,
             globs=globs,
             argdefs=tuple(defaults),
@@ -114,7 +84,7 @@ class ByteOp34(ByteOp33):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
-            # FIXME: figure out qualname
+            qualname=name,
         )
 
         if (
-- 
2.43.0


From c0fdf1ed91aaf6df66465aa6b63f84b7db932404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 26/86] fix: __defaults__ is None for a function without
 default values

---
 xpython/pyobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 4624371..5c802c9 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -143,7 +143,7 @@ class Function:
         # TODO: be more stringent based on vm version.
         self.func_code = self.__code__ = code
         self.func_name = self.__name__ = name or code.co_name
-        self.func_defaults = self.__defaults__ = tuple(argdefs) if argdefs else tuple()
+        self.func_defaults = self.__defaults__ = tuple(argdefs) if argdefs else None
         self.func_closure = self.__closure__ = closure
 
         self.func_globals = globs
-- 
2.43.0


From 7c792da2329689d071fc0c003ab8b1cec62b13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 27/86] fix: the in-place matrix multiplication keeps its
 result

---
 xpython/byteop/byteop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 9627b18..304ef2e 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -488,7 +488,7 @@ class ByteOpBase(object):
             x |= y
         # 3.5 on
         elif op == "MATRIX_MULTIPLY":
-            operator.imatmul(x, y)
+            x = operator.imatmul(x, y)
         else:  # pragma: no cover
             raise self.PyVMError(f"Unknown in-place operator: {op!r}")
         self.vm.push(x)
-- 
2.43.0


From eee2db30afca45b2be14f5f61a4f5cf1a4cc1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 28/86] fix: classic division of 2.x

---
 xpython/byteop/byteop.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 304ef2e..c2c8642 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -20,6 +20,19 @@ from xpython.vm import PyVM
 
 log = logging.getLogger(__name__)
 
+def classic_divide(x, y):
+    """The division of Python 2.x, which truncates for integers."""
+    if isinstance(x, int) and isinstance(y, int):
+        return x // y
+    for operand, other, method_name in ((x, y, "__div__"), (y, x, "__rdiv__")):
+        method = getattr(type(operand), method_name, None)
+        if method is not None:
+            result = method(operand, other)
+            if result is not NotImplemented:
+                return result
+    return x / y
+
+
 UNARY_OPERATORS = {
     "POSITIVE": operator.pos,
     "NEGATIVE": operator.neg,
@@ -31,7 +44,7 @@ UNARY_OPERATORS = {
 BINARY_OPERATORS = {
     "POWER": pow,
     "MULTIPLY": operator.mul,
-    "DIVIDE": getattr(operator, "div", lambda x, y: x / y),
+    "DIVIDE": getattr(operator, "div", classic_divide),
     "FLOOR_DIVIDE": operator.floordiv,
     "TRUE_DIVIDE": operator.truediv,
     "MODULO": operator.mod,
@@ -465,7 +478,7 @@ class ByteOpBase(object):
             if hasattr(x, "__idiv__"):
                 x = x.__idiv__(y)
             else:
-                x //= y
+                x = BINARY_OPERATORS["DIVIDE"](x, y)
         elif op == "FLOOR_DIVIDE":
             x //= y
         elif op == "TRUE_DIVIDE":
-- 
2.43.0


From 976beecdf6c02b26c1ce9fad87aac3383e0956a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 29/86] fix: importing sys no longer binds or uses a global
 variable named sys

Also, sys.version and sys.hexversion match sys.version_info.
---
 xpython/byteop/byteop.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index c2c8642..7334e6f 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -136,6 +136,9 @@ class ByteOpBase(object):
         for op in INPLACE_OPERATORS:
             self.stack_fmt["INPLACE_" + op] = fmt_binary_op
 
+        # Set this lazily in setup_sys_module()
+        self.sys_module = None
+
         # Set this lazily in "convert_method_native_func
         self.method_func_access = None
         self.cross_bytecode_eval_warning_shown = False
@@ -559,20 +562,19 @@ class ByteOpBase(object):
 
     def setup_sys_module(self) -> types.ModuleType:
         """If this has not previously been done, make a *copy* of the
-        running sys module, add it in the frame, and adapt it for the
-        interpreter we are simulating.
+        running sys module, and adapt it for the interpreter we are
+        simulating.
         """
 
-        if "sys" not in self.vm.frame.f_globals:
-            sys_module = copy_module(sys)
-            self.vm.frame.f_globals["sys"] = sys_module
+        if self.sys_module is None:
+            sys_module = self.sys_module = copy_module(sys)
 
-            sys_module.hexversion = self.hexversion
+            major, minor, micro = self.version_info[:3]
+            sys_module.hexversion = major << 24 | minor << 16 | micro << 8 | 0xF0
+            sys_module.version = self.version
             sys_module.version_info = self.version_info
             sys_module.exc_info = self.exc_info
-        else:
-            sys_module = self.vm.frame.f_globals["sys"]
-        return sys_module
+        return self.sys_module
 
     def unaryOperator(self, op):
         x = self.vm.pop()
-- 
2.43.0


From 5af24aa338e83795e3c8240559c722d0492ca47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 30/86] fix: a line that starts with EXTENDED_ARG gets a line
 number

The line number found at the EXTENDED_ARG was replaced by that of the
instruction after it, so there was no "line" event for such a line.
---
 xpython/vm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 97364a5..86f9d60 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -510,6 +510,9 @@ class PyVM(object):
         # the argument exists.
         arguments = []
         int_arg = None
+        # The line number where the instruction, with the EXTENDED_ARGs
+        # that come before it, starts.
+        line_number = None
 
         while True:
             if f.fallthrough:
@@ -519,7 +522,8 @@ class PyVM(object):
                 # Jump instructions must set this False.
                 f.fallthrough = True
             offset = f.f_lasti
-            line_number = self.frame.linestarts.get(offset, None)
+            if line_number is None:
+                line_number = self.frame.linestarts.get(offset, None)
             if line_number is not None:
                 f.f_lineno = line_number
             if not replay:
-- 
2.43.0


From 9ad94df3d49c3665c07f3b54531c69238dc6c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 31/86] fix: an exception after a callback returned "finish"

f_trace is None then, and cannot be called.
---
 xpython/vmtrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 171d926..3ce4634 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -322,7 +322,7 @@ class PyVMTraced(PyVM):
                 and frame
                 and (not frame or frame.event_flags & PyVMEVENT_EXCEPTION)
             ):
-                frame.f_trace(
+                callback(
                     "exception",
                     offset,
                     bytecode_name,
-- 
2.43.0


From d062ebffb9581bb38042c13b00304df1473f8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 32/86] fix: remove the frame when the callback for its call
 event returns "return"

---
 xpython/vmtrace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 3ce4634..33b335b 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -214,6 +214,8 @@ class PyVMTraced(PyVM):
                 frame.f_trace = None
                 frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
             elif result == "return":
+                self.leave_exception_state(frame, handled_exception)
+                self.pop_frame()
                 return self.return_value
 
         self.frame.linestarts = dict(
-- 
2.43.0


From e19fa957be5cc773c920b4834a13930e75138b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 33/86] fix: PyVMTraced takes the implementation, like PyVM,
 and has a usable default

---
 xpython/vmtrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 33b335b..c4021ce 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -5,10 +5,11 @@ This can be used in a debugger or profiler.
 import logging
 from types import TracebackType
 
-from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
+from xdis import PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
+from xdis.version_info import PYTHON_IMPLEMENTATION
 
 from xpython.pyobj import Frame, Traceback, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
@@ -79,14 +80,14 @@ class PyVMTraced(PyVM):
         self,
         callback,
         python_version: tuple[int, ...]=PYTHON_VERSION_TRIPLE,
-        is_pypy: bool=IS_PYPY,
+        python_implementation=PYTHON_IMPLEMENTATION,
         vmtest_testing: bool=False,
         event_flags: int=PyVMEVENT_ALL,
         format_instruction_func=format_instruction,
     ) -> None:
         super().__init__(
             python_version,
-            is_pypy,
+            python_implementation,
             vmtest_testing,
             format_instruction_func=format_instruction_func,
         )
-- 
2.43.0


From 9eecd8d73033520c725b3b3d3f8ac0c40b7bf050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 34/86] fix: breakpoints in code with arguments of other sizes,
 before EXTENDED_ARG, and in shared code

The breakpoint instruction stood in the way of finding the next instruction
before 3.6, one on EXTENDED_ARG never ended, adding one changed the code
for all the calls of the function, and the results "skip" and "return" of the
callback were not understood.
---
 xpython/byteop/byteop24.py | 4 ++--
 xpython/vm.py              | 5 +++++
 xpython/vmtrace.py         | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 68564a8..b27f55d 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -192,10 +192,10 @@ class ByteOp24(ByteOpBase):
                     frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
                 elif result == "return":
                     # Immediate return with value
-                    return self.return_value
+                    return result
                 elif result == "skip":
                     # Don't run instruction
-                    return result
+                    return None
 
         if log.isEnabledFor(logging.INFO):
             vm.log(byte_name, int_arg, arguments, opoffset, line_number)
diff --git a/xpython/vm.py b/xpython/vm.py
index 86f9d60..caefa57 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -517,6 +517,9 @@ class PyVM(object):
         while True:
             if f.fallthrough:
                 if not replay:
+                    if byte_code == self.opc.opmap.get("BRKPT"):
+                        # This stands for the instruction it has replaced.
+                        byte_code = f.brkpt[f.f_lasti]
                     f.f_lasti = next_offset(byte_code, self.opc, f.f_lasti)
             else:
                 # Jump instructions must set this False.
@@ -539,6 +542,7 @@ class PyVM(object):
                     # Note: Python 3.6.0a1 is 2, for 3.6.a3 and beyond we have 1
                     arg_offset += 1
                     if byte_code == self.opc.EXTENDED_ARG:
+                        replay = False
                         extended_arg = int_arg << 8
                         continue
                     else:
@@ -551,6 +555,7 @@ class PyVM(object):
                     )
                     arg_offset += 2
                     if byte_code == self.opc.EXTENDED_ARG:
+                        replay = False
                         extended_arg = int_arg * 65536
                         continue
                     else:
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index c4021ce..d43345b 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,6 +3,7 @@ This can be used in a debugger or profiler.
 """
 
 import logging
+from copy import copy
 from types import TracebackType
 
 from xdis import PYTHON_VERSION_TRIPLE, codeType2Portable
@@ -112,7 +113,10 @@ class PyVMTraced(PyVM):
         # Convert code to something we can change, then
         # Convert its bytecode bytes to a list, update the list and replace this back in
         # the code.
-        code = codeType2Portable(frame.f_code, self.version)
+        # This has to be a copy: other frames run the same code.
+        code = copy(codeType2Portable(frame.f_code, self.version))
+        if code.co_code[offset] == BREAKPOINT_OP:
+            return
         frame.brkpt[offset] = code.co_code[offset]
         bytecode = list(code.co_code)
         bytecode[offset] = BREAKPOINT_OP
-- 
2.43.0


From 18464517aa0693cd511a64e16ea7cfd9475dcab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 35/86] fix: run modules with -m

The option took a value, and the module search used the interface of
imp.find_module() with importlib.util.find_spec().
---
 xpython/__main__.py |  1 +
 xpython/execfile.py | 58 ++++++++++++++-------------------------------
 2 files changed, 19 insertions(+), 40 deletions(-)

diff --git a/xpython/__main__.py b/xpython/__main__.py
index 52b5193..21bcb61 100644
--- a/xpython/__main__.py
+++ b/xpython/__main__.py
@@ -22,6 +22,7 @@ def version_message() -> str:
 @click.option(
     "-m",
     "--module",
+    is_flag=True,
     default=False,
     help="PATH is a module name, not a Python main program",
 )
diff --git a/xpython/execfile.py b/xpython/execfile.py
index 0b1cc7d..cc8f1d8 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -122,12 +122,6 @@ except KeyError:
     BUILTINS = sys.modules["builtins"]
 
 
-def rsplit1(s, sep):
-    """The same as s.rsplit(sep, 1), but works in 2.3"""
-    parts = s.split(sep)
-    return sep.join(parts[:-1]), parts[-1]
-
-
 def run_python_module(modulename, args):
     """Run a python module, as though with ``python -m name args...``.
 
@@ -136,43 +130,27 @@ def run_python_module(modulename, args):
     element naming the module being executed.
 
     """
-    openfile = None
-    glo, loc = globals(), locals()
     try:
-        try:
-            # Search for the module - inside its parent package, if any - using
-            # standard import mechanics.
-            if "." in modulename:
-                packagename, name = rsplit1(modulename, ".")
-                package = __import__(packagename, glo, loc, ["__path__"])
-                searchpath = package.__path__
-            else:
-                packagename, name = None, modulename
-                searchpath = None  # "top-level search" in imp.find_module()
-            openfile, pathname, _ = find_module(name, searchpath)
-
-            # Complain if this is a magic non-file module.
-            if openfile is None and pathname is None:
-                raise NoSourceError(f"module does not live in a file: {modulename!r}")
-
-            # If `modulename` is actually a package, not a mere module, then we
-            # pretend to be Python 2.7 and try running its __main__.py script.
-            if openfile is None:
-                packagename = modulename
-                name = "__main__"
-                package = __import__(packagename, glo, loc, ["__path__"])
-                searchpath = package.__path__
-                openfile, pathname, _ = find_module(name, searchpath)
-        except ImportError:
-            _, err, _ = sys.exc_info()
-            raise NoSourceError(str(err))
-    finally:
-        if openfile:
-            openfile.close()
+        # Search for the module using standard import mechanics.
+        spec = find_module(modulename)
+
+        # If `modulename` is actually a package, not a mere module, then we
+        # try running its __main__.py script.
+        if spec is not None and spec.submodule_search_locations is not None:
+            spec = find_module(modulename + ".__main__")
+    except (ImportError, ValueError):
+        _, err, _ = sys.exc_info()
+        raise NoSourceError(str(err))
+
+    if spec is None:
+        raise NoSourceError(f"No module to run: {modulename!r}")
+
+    # Complain if this is a magic non-file module.
+    if not spec.has_location:
+        raise NoSourceError(f"module does not live in a file: {modulename!r}")
 
     # Finally, hand the file off to run_python_file for execution.
-    args[0] = pathname
-    run_python_file(pathname, args, package=packagename)
+    run_python_file(spec.origin, args, package=spec.parent)
 
 
 def run_python_file(
-- 
2.43.0


From 3e36c7b3c5f2a26dafa5097a56faf108260d36a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 36/86] fix: run strings with -c

The wrong value was passed for the implementation. Also restore sys.argv, and
exit as for a file when the string fails.
---
 xpython/execfile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index cc8f1d8..a8ad435 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -287,6 +287,7 @@ def run_python_string(
     main_mod.__builtins__ = BUILTINS
 
     # Set sys.argv and the first path element properly.
+    old_argv = sys.argv
     old_path0 = sys.path[0]
     sys.argv = [fake_path] + list(args)
 
@@ -306,11 +307,11 @@ def run_python_string(
         python_version = PYTHON_VERSION_TRIPLE
 
         # Execute the source string.
-        exec_code_object(
+        rc = exec_code_object(
             code,
             main_mod.__dict__,
             python_version,
-            IS_PYPY,
+            PYTHON_IMPLEMENTATION,
             callback,
             format_instruction=format_instruction,
         )
@@ -320,8 +321,11 @@ def run_python_string(
         sys.modules["__main__"] = old_main_mod
 
         # Restore the old argv and path
+        sys.argv = old_argv
         sys.path[0] = old_path0
 
+    sys.exit(rc)
+
 
 if __name__ == "__main__":
     if len(sys.argv) < 2:
-- 
2.43.0


From 8a86b909022533125b4b4f4995e1a665db9bc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 37/86] fix: PyPy 3.9 LOAD_METHOD pushes what CALL_METHOD pops

---
 xpython/byteop/byteop39pypy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xpython/byteop/byteop39pypy.py b/xpython/byteop/byteop39pypy.py
index 814df43..9d323b5 100644
--- a/xpython/byteop/byteop39pypy.py
+++ b/xpython/byteop/byteop39pypy.py
@@ -22,5 +22,7 @@ class ByteOp39PyPy(ByteOp39, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    # In 3.9 this is the name of what was LOOKUP_METHOD before.
+    LOAD_METHOD = ByteOpPyPy.LOOKUP_METHOD
     CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
-- 
2.43.0


From 3ca7e07078b8485012b74c61f3d3184b38eac205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 38/86] fix: return of a computed value from an exception
 handler in 3.8+

---
 xpython/byteop/byteop38.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index c686521..9eac3d0 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -101,6 +101,20 @@ class ByteOp38(ByteOp37):
         self.vm.push(self.vm.frame.f_lasti + 2)
         self.vm.jump(delta)
 
+    def POP_EXCEPT(self):
+        """Removes one block from the block stack, which must be an exception
+        handler block. The three values on top of the stack are popped to
+        restore the exception state.
+
+        Changed in 3.8: a value to be returned can be below these three.
+        """
+        block = self.vm.pop_block()
+        if block.type != "except-handler":
+            raise self.vm.PyVMError(
+                f"popped block is not an except handler; is {block}"
+            )
+        self.vm.handled_exception = tuple(reversed(self.vm.popn(3)))
+
     def POP_FINALLY(self, preserve_tos: int):
         """Cleans up the value stack and the block stack. If preserve_tos is
         not 0 TOS first is popped from the stack and pushed on the stack after
@@ -159,7 +173,7 @@ class ByteOp38(ByteOp37):
         exit_result = self.vm.pop()
         exception = self.vm.pop()
         if exception is not None and exit_result:
-            self.POP_EXCEPT()
+            super().POP_EXCEPT()
             self.vm.push(None)
 
     # Changed from 2.4: Map value is TOS and map key is TOS1. Before,
-- 
2.43.0


From e030c77d8d78cd4bdd55c535b305a8d31134ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 39/86] fix: yield from sends values to any iterator with a
 send method

---
 xpython/byteop/byteop33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 2fa6408..d1bb878 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -93,7 +93,7 @@ class ByteOp33(ByteOp32):
         x = self.vm.top
 
         try:
-            if not isinstance(x, Generator) or u is None:
+            if u is None:
                 # Call next on iterators.
                 retval = next(x)
             else:
-- 
2.43.0


From bf00d956d43a6587e28a5aacd978e82c7c31cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 40/86] fix: order of keyword arguments with CALL_FUNCTION_KW

---
 xpython/byteop/byteop36.py     |  4 +---
 xpython/byteop/byteop37pypy.py | 18 ++----------------
 2 files changed, 3 insertions(+), 19 deletions(-)

diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index ca35ad4..0cb51e4 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -75,10 +75,8 @@ class ByteOp36(ByteOp35):
         self.version_info = Version_info(3, 6, 14, "final", 0)
 
     def call_function_kw(self, argc: int):
-        namedargs = {}
         namedargs_tup = self.vm.pop()
-        for name in reversed(namedargs_tup):
-            namedargs[name] = self.vm.pop()
+        namedargs = dict(zip(namedargs_tup, self.vm.popn(len(namedargs_tup))))
 
         lenPos = argc - len(namedargs_tup)
         posargs = self.vm.popn(lenPos)
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 1dc9e1b..c2e4f59 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -67,27 +67,13 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         case is garbage. After that is the method to call.
         """
 
-        # We are going to access parameter off of the stack which is
-        # has the last parameter closest to the top.
-        # Reverse keyword names in the tuple match our access pattern.
         kw_names = self.vm.pop()
         assert isinstance(kw_names, tuple)
-        kw_names = list(reversed(kw_names))
         kwarg_count = len(kw_names)
 
         assert argc >= kwarg_count
-        pos_argc = argc - kwarg_count
-        keyword_args = {}
-
-        for i in range(kwarg_count):
-            param_value = self.vm.pop()
-            keyword_args[kw_names[i]] = param_value
-
-        pos_args = []
-        for i in range(pos_argc):
-            pos_args.append(self.vm.pop())
-
-        pos_args = list(reversed(pos_args))
+        keyword_args = dict(zip(kw_names, self.vm.popn(kwarg_count)))
+        pos_args = self.vm.popn(argc - kwarg_count)
 
         self.vm.pop()  # cached method slot is not used here.
         func = self.vm.pop()
-- 
2.43.0


From 6f37c7b02f2043f36ffba06cc99a872af766b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 41/86] fix: from module import * uses __all__

---
 xpython/byteop/byteop24.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index b27f55d..6e1a679 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -343,11 +343,13 @@ class ByteOp24(ByteOpBase):
         TOS to the local namespace. The module is popped after loading all
         names. This opcode implements from module import *.
         """
-        # TODO: this doesn't use __all__ properly.
         mod = self.vm.pop()
-        for attr in dir(mod):
-            if attr[0] != "_":
-                self.vm.frame.f_locals[attr] = getattr(mod, attr)
+        if hasattr(mod, "__all__"):
+            names = mod.__all__
+        else:
+            names = [attr for attr in mod.__dict__ if attr[0] != "_"]
+        for attr in names:
+            self.vm.frame.f_locals[attr] = getattr(mod, attr)
 
     def EXEC_STMT(self):
         """
-- 
2.43.0


From bccb816383e2ee1992b479e7034f9dad22c2ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 42/86] fix: 2.x slices without an upper bound do not call
 len()

---
 xpython/vm.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index caefa57..c4a316a 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -955,8 +955,8 @@ class PyVM(object):
     # Operators
 
     def sliceOperator(self, op):
-        start = 0
-        end = None  # we will take this to mean end
+        start = None  # the beginning
+        end = None  # the end
         op, count = op[:-2], int(op[-1])
         if count == 1:
             start = self.pop()
@@ -966,8 +966,6 @@ class PyVM(object):
             end = self.pop()
             start = self.pop()
         slice_len = self.pop()
-        if end is None:
-            end = len(slice_len)
         if op.startswith("STORE_"):
             slice_len[start:end] = self.pop()
         elif op.startswith("DELETE_"):
-- 
2.43.0


From 37c8e17c6e790f6df46258f558a76e029c4960ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 43/86] fix: StopIteration leaving a generator becomes
 RuntimeError in 3.7+

---
 xpython/pyobj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 5c802c9..3cd568e 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -585,8 +585,11 @@ class Generator(object):
         self.gi_running = True
         try:
             val = self.vm.resume_frame(self.gi_frame)
-        except BaseException:
+        except BaseException as e:
             self.finished = True
+            if isinstance(e, StopIteration) and self.vm.version >= (3, 7):
+                # PEP 479
+                raise RuntimeError("generator raised StopIteration") from e
             raise
         finally:
             self.gi_running = False
-- 
2.43.0


From 1acc207806851eb3eb0dd67cfdd4f9b72405a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 44/86] fix: SystemExit and other BaseExceptions run the
 handlers of calling frames

---
 xpython/vm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index c4a316a..8bafe22 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -691,7 +691,7 @@ class PyVM(object):
                     )
                 why = bytecode_fn(*arguments)
 
-        except Exception:
+        except BaseException:
             # Deal with exceptions encountered while executing the op.
             self.last_traceback = byteop.traceback_from_frame()
             self.last_exception = sys.exc_info()
@@ -844,9 +844,11 @@ class PyVM(object):
         last_exception = self.last_exception
         if not (last_exception and last_exception[0]):
             raise PyVMError("Borked exception recording")
-        if not self.frame:
-            raise PyVMUncaughtException.from_tuple(last_exception)
         exc_type, exc_value = last_exception[:2]
+        if not self.frame and (
+            not isinstance(exc_value, BaseException) or isinstance(exc_value, Exception)
+        ):
+            raise PyVMUncaughtException.from_tuple(last_exception)
         if not isinstance(exc_value, BaseException):
             # An exception that has not been normalized yet
             if exc_value is None:
-- 
2.43.0


From 6c91b340b36c1788aa39863f139e787c1595974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 45/86] fix: a generator is finished when it has returned, not
 when it starts to

---
 xpython/byteop/byteop24.py | 2 --
 xpython/vm.py              | 4 ++++
 xpython/vmtrace.py         | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 6e1a679..2f8366c 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -327,8 +327,6 @@ class ByteOp24(ByteOpBase):
     def RETURN_VALUE(self):
         """Returns with TOS to the caller of the function."""
         self.vm.return_value = self.vm.pop()
-        if self.vm.frame.generator:
-            self.vm.frame.generator.finished = True
         return "return"
 
     def YIELD_VALUE(self):
diff --git a/xpython/vm.py b/xpython/vm.py
index 8bafe22..327482f 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -945,6 +945,10 @@ class PyVM(object):
             if why:
                 break
 
+        if why == "return" and frame.generator:
+            # Not earlier: a finally clause can still yield, or drop the return.
+            frame.generator.finished = True
+
         self.leave_exception_state(frame, handled_exception)
         self.pop_frame()
 
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index d43345b..63f80d3 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -353,6 +353,10 @@ class PyVMTraced(PyVM):
             pass
         # End extra tracing code
 
+        if why == "return" and frame.generator:
+            # Not earlier: a finally clause can still yield, or drop the return.
+            frame.generator.finished = True
+
         self.leave_exception_state(frame, handled_exception)
         self.pop_frame()
 
-- 
2.43.0


From 1f25c3558e4952a7e44005f761adbf360215708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 46/86] fix: logging does not run the __repr__() and
 __getattr__() of the program

---
 xpython/byteop/byteop24.py     | 24 ++++-------
 xpython/byteop/byteop36.py     | 13 ++----
 xpython/byteop/byteop37pypy.py |  7 ++--
 xpython/pyobj.py               | 73 ++++++++++++++++++++++++++++++++++
 xpython/vm.py                  | 27 ++++++++-----
 5 files changed, 105 insertions(+), 39 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 2f8366c..166e72e 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -18,7 +18,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.pyobj import Function, Traceback
+from xpython.pyobj import Function, Traceback, log_function_name
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -46,11 +46,11 @@ def get_cell_name(vm, i: int):
 
 
 def fmt_store_deref(vm, _, repr=repr):
-    return f" ({vm.top})"
+    return f" ({repr(vm.top)})"
 
 
 def fmt_load_deref(vm, int_arg, repr=repr):
-    return f" ({vm.frame.cells[get_cell_name(vm, int_arg)].get()})"
+    return f" ({repr(vm.frame.cells[get_cell_name(vm, int_arg)].get())})"
 
 
 def fmt_call_function(vm, argc: int, repr=repr):
@@ -58,26 +58,16 @@ def fmt_call_function(vm, argc: int, repr=repr):
     returns the name of the function from the code object in the stack
     """
     name_default, pos_args = divmod(argc, 256)
-    code = vm.peek(name_default + pos_args + 1)
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(code, attr):
-            return f" ({getattr(code, attr)})"
-
-    # Nothing found.
-    return ""
+    name = log_function_name(vm.peek(name_default + pos_args + 1))
+    return f" ({name})" if name else ""
 
 
 def fmt_make_function(vm, _=None, repr=repr):
     """
     returns the name of the function from the code object in the stack
     """
-    TOS = vm.top
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(TOS, attr):
-            return f" ({getattr(TOS, attr)})"
-
-    # Nothing found.
-    return ""
+    name = log_function_name(vm.top)
+    return f" ({name})" if name else ""
 
 class Traceback24(Traceback):
     """
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 0cb51e4..d0494c4 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -11,7 +11,7 @@ from xdis.version_info import PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop35 import ByteOp35
-from xpython.pyobj import Function
+from xpython.pyobj import Function, log_function_name
 
 # Even though Python 3.6 loses CALL_FUNCTION_VAR_KW, PyPy retains this for 3.6.
 # However, it is gone in 3.7. So we will keep this around for one more version than
@@ -43,14 +43,9 @@ def fmt_call_function(vm, argc: int, repr_fn=repr) -> str:
     returns the name of the function from the code object in the stack
     """
     name_default, pos_args = divmod(argc, 256)
-    TOS = vm.peek(pos_args + 1)
     # FIXME: give info on pos_args. Right now this is okay only for pos_args == 0
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(TOS, attr):
-            return f" ({getattr(TOS, attr)})"
-
-    # Nothing found.
-    return ""
+    name = log_function_name(vm.peek(pos_args + 1))
+    return f" ({name})" if name else ""
 
 
 def fmt_call_function_kw(vm, argc, repr=repr) -> str:
@@ -59,7 +54,7 @@ def fmt_call_function_kw(vm, argc, repr=repr) -> str:
     """
     namedargs_tup = vm.top
     func = vm.peek(argc + 2)
-    return f" (keyword: {namedargs_tup}, function: {func})"
+    return f" (keyword: {namedargs_tup}, function: {repr(func)})"
 
 
 # pylint: disable=too-many-public-methods
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index c2e4f59..1c1e34f 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -7,6 +7,7 @@
 """
 from xpython.byteop.byteop37 import ByteOp37
 from xpython.byteop.byteoppypy import ByteOpPyPy
+from xpython.pyobj import log_function_name
 
 
 def fmt_call_method(vm, argc: int, repr_fn=repr) -> str:
@@ -15,7 +16,7 @@ def fmt_call_method(vm, argc: int, repr_fn=repr) -> str:
     """
     pos_args = [vm.peek(i + 1) for i in range(argc)]
 
-    fn_name = vm.peek(argc + 2).__name__
+    fn_name = log_function_name(vm.peek(argc + 2))
     return f""" {fn_name}({", ".join((repr_fn(a) for a in pos_args))})"""
 
 
@@ -27,14 +28,14 @@ def fmt_call_method_kw(vm, argc: int, repr=repr) -> str:
     kwargs_count = len(kwarg_names)
     kwargs_list = []
     for i in range(kwargs_count):
-        kwargs_list.append(f"{kwarg_names[i]}={vm.peek(i+1)}")
+        kwargs_list.append(f"{kwarg_names[i]}={repr(vm.peek(i+1))}")
 
     pos_args = []
     j = kwargs_count + 2
     for i in range(argc - kwargs_count):
         pos_args.append(vm.peek(i + j))
 
-    fn_name = vm.peek(argc + 3).__name__
+    fn_name = log_function_name(vm.peek(argc + 3))
     return f""" {fn_name}({", ".join((repr(a) for a in pos_args + kwargs_list))})"""
 
 
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 3cd568e..efeaaa5 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -28,6 +28,50 @@ def copy_module(old_module) -> ModuleType:
     return new_module
 
 
+def log_repr(obj, depth: int = 4) -> str:
+    """
+    The repr() of `obj` that we show in the log. Some objects have a __repr__() or
+    __getattr__() written in the program that we are interpreting. Those
+    may have side effects or raise an exception, and with logging we do not want to
+    change what a program does. So we use repr() only where that is known not to
+    run any part of the program.
+    """
+    kind = type(obj)
+    if kind in (list, tuple, set, frozenset, dict):
+        if depth == 0:
+            return "..."
+        if kind is dict:
+            elts = ", ".join(
+                f"{log_repr(key, depth - 1)}: {log_repr(value, depth - 1)}"
+                for key, value in obj.items()
+            )
+            return "{%s}" % elts
+        elts = ", ".join(log_repr(elt, depth - 1) for elt in obj)
+        if kind is list:
+            return f"[{elts}]"
+        elif kind is tuple:
+            return f"({elts},)" if len(obj) == 1 else f"({elts})"
+        return f"{kind.__name__}({elts})"
+    elif kind is Method:
+        name = log_function_name(obj.im_func)
+        return f"<{'Unbound' if obj.im_self is None else 'Bound'} Method {name}>"
+    elif kind in SIMPLE_REPR_TYPES or iscode(obj):
+        return repr(obj)
+    return object.__repr__(obj)
+
+
+def log_function_name(obj) -> str:
+    """
+    The name of function, class, or code object `obj` that we show in the log,
+    or an empty string if `obj` is something else. See also log_repr().
+    """
+    if iscode(obj):
+        return obj.co_name
+    elif type(obj) in (type, Function, Method) + NATIVE_FUNCTION_TYPES:
+        return str(getattr(obj, "__name__", ""))
+    return ""
+
+
 def make_cell(value: int):
     # Thanks to Alex Gaynor for help with this bit of twistiness.
     # Construct an actual cell object by creating a closure right here,
@@ -328,6 +372,35 @@ class Method(object):
             return self.im_func(*args, **kwargs)
 
 
+NATIVE_FUNCTION_TYPES = (
+    types.FunctionType,
+    types.BuiltinFunctionType,
+    types.MethodType,
+)
+
+# Types where repr() does not run code of the program that we are interpreting.
+SIMPLE_REPR_TYPES = frozenset(
+    (
+        bool,
+        bytearray,
+        bytes,
+        complex,
+        float,
+        int,
+        range,
+        str,
+        type,
+        type(None),
+        type(Ellipsis),
+        Function,
+        ModuleType,
+        types.BuiltinFunctionType,
+        types.FunctionType,
+        types.ModuleType,
+    )
+)
+
+
 class Cell:
     """A fake cell for closures.
 
diff --git a/xpython/vm.py b/xpython/vm.py
index 327482f..42de2cf 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -24,7 +24,13 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame, Traceback, traceback_from_frame
+from xpython.pyobj import (
+    Block,
+    Frame,
+    Traceback,
+    log_repr,
+    traceback_from_frame,
+)
 
 log = logging.getLogger(__name__)
 
@@ -108,7 +114,7 @@ def format_instruction(
     byte_code = opc.opmap.get(bytecode_name, 0)
 
     if vm and bytecode_name in vm.byteop.stack_fmt:
-        stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+        stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, log_repr)
     else:
         stack_args = ""
 
@@ -326,13 +332,14 @@ class PyVM(object):
         # The callargs default is safe because we never modify the dict.
         # pylint: disable=dangerous-default-value
 
-        log.debug(
-            "make_frame: code=%r, callargs=%s, f_globals=%r, f_locals=%r",
-            code,
-            repr(callargs),
-            (type(f_globals), id(f_globals)),
-            (type(f_locals), id(f_locals)),
-        )
+        if log.isEnabledFor(logging.DEBUG):
+            log.debug(
+                "make_frame: code=%r, callargs=%s, f_globals=%r, f_locals=%r",
+                code,
+                log_repr(callargs),
+                (type(f_globals), id(f_globals)),
+                (type(f_locals), id(f_locals)),
+            )
         if f_globals is not None:
             f_globals = f_globals
             if f_locals is None:
@@ -637,7 +644,7 @@ class PyVM(object):
             vm=self,
         )
         indent = "    " * (len(self.frames) - 1)
-        stack_rep = repr(self.frame.stack)
+        stack_rep = log_repr(self.frame.stack)
         block_stack_rep = repr(self.frame.block_stack)
 
         log.debug(f"  {indent}frame.stack: {stack_rep}")
-- 
2.43.0


From deb4a394b62daebceea55570780b6d22861f1279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 47/86] fix: a call does not ask the called object for im_func

---
 xpython/byteop/byteop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 7334e6f..2cf33de 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, copy_module
+from xpython.pyobj import Function, Method, copy_module
 from xpython.vm import PyVM
 
 
@@ -164,7 +164,7 @@ class ByteOpBase(object):
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
         pos_args = list(pos_args)
-        if hasattr(func, "im_func"):
+        if type(func) is Method:
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
-- 
2.43.0


From cfea6d62a633031f2a8e9f992d90be1227e5712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 48/86] fix: what except clauses match in 2.x, and must not
 match in 3.x

---
 xpython/byteop/byteop24.py | 12 ++++++++++++
 xpython/byteop/byteop32.py | 11 +++++++++++
 xpython/byteop/byteop39.py |  1 +
 3 files changed, 24 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 166e72e..9716c56 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -539,6 +539,16 @@ class ByteOp24(ByteOpBase):
         and issubclass(x, y),  # exception-match
     ]
 
+    def exception_classes(self, match):
+        """The classes an "except" clause with the expression `match` catches.
+        In 2.x there can be anything in it; what is not a class catches nothing.
+
+        Changed in 3.0
+        """
+        if isinstance(match, tuple):
+            return sum((self.exception_classes(m) for m in match), ())
+        return (match,) if isinstance(match, type) else ()
+
     def COMPARE_OP(self, opname: int):
         """Performs a Boolean operation. The operation name can be
         found in cmp_op[opname].
@@ -546,6 +556,8 @@ class ByteOp24(ByteOpBase):
         Changed in 3.12
         """
         x, y = self.vm.popn(2)
+        if opname == 10:  # exception-match
+            y = self.exception_classes(y)
         self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
 
     # Imports
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 9ef828e..4f39956 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -47,6 +47,17 @@ class ByteOp32(ByteOp27):
         self.cell_contents(name)
         self.vm.frame.cells[name].set(Cell.UNBOUND)
 
+    # Changed in 3.0
+    def exception_classes(self, match):
+        """The classes an "except" clause with the expression `match` catches."""
+        for cls in match if isinstance(match, tuple) else (match,):
+            if not (isinstance(cls, type) and issubclass(cls, BaseException)):
+                raise TypeError(
+                    "catching classes that do not inherit from BaseException "
+                    "is not allowed"
+                )
+        return match
+
     def DUP_TOP_TWO(self):
         """Duplicates the reference on top of the stack."""
         a, b = self.vm.popn(2)
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 98325b5..6033da5 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -103,6 +103,7 @@ class ByteOp39(ByteOp38):
         the stack.
         """
         TOS1, TOS = self.vm.popn(2)
+        TOS = self.exception_classes(TOS)
         # FIXME: not sure what operation should be used to test not "matches".
         if not issubclass(TOS1, TOS):
             self.vm.jump(target)
-- 
2.43.0


From 7a2d4fd739d4054c39dd6ed3ccb3c19685a72158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 49/86] fix: generator expressions with closures, and tuple
 parameters, in 2.x

Argument binding looked into the bytecode of a function that has an unnamed
argument, which failed: bytecode is bytes now. Besides, the function itself
unpacks such an argument.
---
 xpython/stdlib/inspect2.py | 48 +++-----------------------------------
 1 file changed, 3 insertions(+), 45 deletions(-)

diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index f4dff31..6ac9ffa 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -7,9 +7,6 @@ import sys
 from collections import namedtuple
 from inspect import ismethod
 
-# For the kinds of specific opcode use we need,
-# all 2.x opcodes are compatible with what is in 2.7
-import xdis.opcodes.opcode_2x.opcode_27 as opc
 from xdis import COMPILER_FLAG_BIT, iscode
 
 ArgSpec = namedtuple("ArgSpec", "args varargs keywords defaults")
@@ -36,7 +33,7 @@ def getargs(co, version) -> Arguments:
     """Get information about the arguments accepted by a code object.
 
     Three things are returned: (args, varargs, varkw), where 'args' is
-    a list of argument names (possibly containing nested lists), and
+    a list of argument names, and
     'varargs' and 'varkw' are the names of the * and ** arguments or None."""
 
     if not iscode(co):
@@ -44,48 +41,9 @@ def getargs(co, version) -> Arguments:
 
     nargs = co.co_argcount
     names = co.co_varnames
+    # An anonymous (tuple) argument has a name like ".1". The code of the function
+    # unpacks it, so we can treat it like any other argument.
     args = list(names[:nargs])
-    step = 0
-
-    # The following acrobatics are for anonymous (tuple) arguments.
-    for i in range(nargs):
-        if args[i][:1] in ("", "."):
-            stack, remain, count = [], [], []
-            while step < len(co.co_code):
-                op = ord(co.co_code[step])
-                step = step + 1
-                if op >= opc.HAVE_ARGUMENT:
-                    opname = opc.opname[op]
-                    value = ord(co.co_code[step]) + ord(co.co_code[step + 1]) * 256
-                    step = step + 2
-                    if opname in ("UNPACK_TUPLE", "UNPACK_SEQUENCE"):
-                        remain.append(value)
-                        count.append(value)
-                    elif opname in ("STORE_FAST", "STORE_DEREF"):
-                        if opname == "STORE_FAST":
-                            stack.append(names[value])
-                        else:
-                            stack.append(co.co_cellvars[value])
-
-                        # Special case for sublists of length 1: def foo((bar))
-                        # doesn't generate the UNPACK_TUPLE bytecode, so if
-                        # `remain` is empty here, we have such a sublist.
-                        if not remain:
-                            stack[0] = [stack[0]]
-                            break
-                        else:
-                            remain[-1] = remain[-1] - 1
-                            while remain[-1] == 0:
-                                remain.pop()
-                                size = count.pop()
-                                stack[-size:] = [stack[-size:]]
-                                if not remain:
-                                    break
-                                remain[-1] = remain[-1] - 1
-                            if not remain:
-                                break
-            args[i] = stack[0]
-
     varargs = None
     if co.co_flags & COMPILER_FLAG_BIT["VARARGS"]:
         varargs = co.co_varnames[nargs]
-- 
2.43.0


From ecb34ae3d3bbcffc0200e4be7d355e6724454cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 50/86] fix: BUILD_MAP_UNPACK_WITH_CALL leaves the function
 where it is

---
 xpython/byteop/byteop35.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 5a6aa64..44eafee 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -251,17 +251,17 @@ class ByteOp35(ByteOp34):
         # entry after the mappings. In 3.6 this function-position
         # encoding was dropped. But we'll follow the spec.
         fn_pos, count = divmod(oparg, 256)
-        fn_pos -= 1
 
         elts = self.vm.popn(count)
-        func = self.vm.pop(fn_pos)
+
+        # The function is needed for error messages only. It stays on the stack, as do
+        # the arguments that are above it.
+        func = self.vm.peek(fn_pos)
 
         kwargs = {}
         for elt in elts:
             self.merge_keyword_args(func, kwargs, elt)
 
-        # Put everything in the right order for CALL_FUNCTION_KW
-        self.vm.push(func)
         self.vm.push(kwargs)
 
     def CALL_FUNCTION_VAR(self, argc: int):
-- 
2.43.0


From 83825248803de4fd6d880f2554cda5c786638dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 51/86] fix: keyword arguments keep their order in calls before
 3.6

---
 xpython/byteop/byteop.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 2cf33de..fd3f6c4 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -366,11 +366,9 @@ class ByteOpBase(object):
             named_args[key] = keyword_args[key]
 
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
-        named_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            named_args[key] = val
+        keys_and_values = self.vm.popn(2 * len_kw)
+        named_args = dict(zip(keys_and_values[::2], keys_and_values[1::2]))
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
 
-- 
2.43.0


From a730ecf116ce4a5dc77b404910e0a0ed30c4adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 52/86] fix: keyword arguments keep their order in 3.5 calls
 with *args

---
 xpython/byteop/byteop35.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 44eafee..a59b250 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -286,11 +286,9 @@ class ByteOp35(ByteOp34):
         keyword arguments.
 
         """
-        keyword_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            keyword_args[key] = val
+        keys_and_values = self.vm.popn(2 * len_kw)
+        keyword_args = dict(zip(keys_and_values[::2], keys_and_values[1::2]))
         var_args = self.vm.pop()
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
-- 
2.43.0


From 646248071aa4d7ab5017dddb46e7c1c3b2cca1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 53/86] fix: f(*args, key=value, **kwargs) in 3.5

---
 xpython/byteop/byteop35.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index a59b250..a558f80 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -296,3 +296,21 @@ class ByteOp35(ByteOp34):
         self.call_function_with_args_resolved(
             func, pos_args=pos_args, named_args=keyword_args
         )
+
+    def CALL_FUNCTION_VAR_KW(self, argc: int):
+        """Calls a callable object with an iterable of positional arguments, as
+        `CALL_FUNCTION_VAR` does, and with the keyword arguments that the mapping
+        on top of the stack has.
+        """
+        mapping = self.vm.pop()
+        len_kw, len_pos = divmod(argc, 256)
+        keys_and_values = self.vm.popn(2 * len_kw)
+        keyword_args = dict(zip(keys_and_values[::2], keys_and_values[1::2]))
+        var_args = self.vm.pop()
+        pos_args = self.vm.popn(len_pos)
+        pos_args.extend(var_args)
+        func = self.vm.pop()
+        self.merge_keyword_args(func, keyword_args, mapping)
+        self.call_function_with_args_resolved(
+            func, pos_args=pos_args, named_args=keyword_args
+        )
-- 
2.43.0


From b4e13b675f70ae95575d334196a7aab47f2438a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 54/86] fix: methods of the same function and object are equal

---
 xpython/pyobj.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index efeaaa5..efb1e80 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -364,6 +364,16 @@ class Method(object):
         else:
             return f"<Unbound Method {name}>"
 
+    # Each attribute access makes a Method. They are equal when they call
+    # the same function for the same object.
+    def __eq__(self, other):
+        if not isinstance(other, Method):
+            return NotImplemented
+        return self.im_self is other.im_self and self.im_func == other.im_func
+
+    def __hash__(self):
+        return hash((id(self.im_self), self.im_func))
+
     def __call__(*args, **kwargs):
         self, *args = args
         if self.im_self is not None:
-- 
2.43.0


From e7e863235791cbfacf4502d14f52851edd9909f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 55/86] fix: no value in the return event of a frame an
 exception leaves

---
 xpython/vmtrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 63f80d3..e2acfb4 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -347,7 +347,7 @@ class PyVMTraced(PyVM):
                     byte_code,
                     line_number,
                     int_arg,
-                    self.return_value,
+                    None,  # there is no value, and return_value is another frame's
                     self,
                 )
             pass
-- 
2.43.0


From a2c6a271de5847d9cce38d41f4565769c4a73309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 56/86] fix: from 3.8 on a return does not enter the handlers
 of the blocks it leaves

---
 xpython/vm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 42de2cf..62e5edf 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -807,7 +807,8 @@ class PyVM(object):
                 self.jump(block.handler)
                 return why
 
-            elif block.type == "finally":
+            elif block.type == "finally" and self.version < (3, 8):
+                # From 3.8 on handlers are entered with exceptions only.
                 if why in ("return", "continue"):
                     self.push(self.return_value)
                 self.push(why)
-- 
2.43.0


From f8e04e9b29e6858352d9990a355273bb437ffd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 57/86] fix: 2.x division tries reflected methods of derived
 classes first, and x /= y falls back when __idiv__ does not apply

---
 xpython/byteop/byteop.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index fd3f6c4..3fe5c72 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -24,12 +24,27 @@ def classic_divide(x, y):
     """The division of Python 2.x, which truncates for integers."""
     if isinstance(x, int) and isinstance(y, int):
         return x // y
-    for operand, other, method_name in ((x, y, "__div__"), (y, x, "__rdiv__")):
+    type_x, type_y = type(x), type(y)
+    calls = [(x, y, "__div__"), (y, x, "__rdiv__")]
+    if type_x is type_y:
+        del calls[1]
+    elif issubclass(type_y, type_x) and (
+        getattr(type_y, "__rdiv__", None) is not getattr(type_x, "__rdiv__", None)
+    ):
+        # The right operand's class knows better than the one it is derived from.
+        calls.reverse()
+    tried = False
+    for operand, other, method_name in calls:
         method = getattr(type(operand), method_name, None)
         if method is not None:
+            tried = True
             result = method(operand, other)
             if result is not NotImplemented:
                 return result
+    if tried:
+        raise TypeError(
+            f"unsupported operand type(s) for /: '{type_x.__name__}' and '{type_y.__name__}'"
+        )
     return x / y
 
 
@@ -476,10 +491,12 @@ class ByteOpBase(object):
             # Overwritten __div__ is not picked up by x //= y
             # which seems to puck up FLOOR_DIVIDE
             # See Python 2.7 test_augassign.py
-            if hasattr(x, "__idiv__"):
-                x = x.__idiv__(y)
-            else:
-                x = BINARY_OPERATORS["DIVIDE"](x, y)
+            result = NotImplemented
+            if hasattr(type(x), "__idiv__"):
+                result = type(x).__idiv__(x, y)
+            if result is NotImplemented:
+                result = BINARY_OPERATORS["DIVIDE"](x, y)
+            x = result
         elif op == "FLOOR_DIVIDE":
             x //= y
         elif op == "TRUE_DIVIDE":
-- 
2.43.0


From 46a83e4bc61fc5c3b55037825ac7bfeea3c2916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 58/86] fix: a display that unpacks what is no mapping raises
 TypeError

---
 xpython/byteop/byteop35.py | 8 +++++++-
 xpython/byteop/byteop39.py | 3 +--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index a558f80..6e923ed 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -237,9 +237,15 @@ class ByteOp35(ByteOp34):
         elts = self.vm.popn(count)
         result = {}
         for d in elts:
-            result.update(d)
+            self.update_from_mapping(result, d)
         self.vm.push(result)
 
+    def update_from_mapping(self, result, mapping):
+        """What ``**mapping`` in a dict display does."""
+        if not hasattr(mapping, "keys"):
+            raise TypeError(f"'{type(mapping).__name__}' object is not a mapping")
+        result.update(mapping)
+
     def BUILD_MAP_UNPACK_WITH_CALL(self, oparg):
         """
         This is similar to BUILD_MAP_UNPACK, but is used for f(**x, **y,
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 6033da5..e3ac280 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -143,7 +143,6 @@ class ByteOp39(ByteOp38):
     def DICT_UPDATE(self, i) -> None:
         """Calls dict.update(TOS1[-i], TOS). Used to build dicts."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        destination.update(TOS)
+        self.update_from_mapping(destination, TOS)
-- 
2.43.0


From 77c3d163601619055f846df475afff516114463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 59/86] fix: the documentation of a method is that of its
 function

---
 xpython/pyobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index efb1e80..7c6f8b8 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -342,7 +342,7 @@ class Method(object):
     """Create a bound instance method object."""
 
     def __init__(self, obj, _class, func) -> None:
-        self.__doc__ = obj.__doc__
+        self.__doc__ = getattr(func, "__doc__", None)
         self.im_self = obj
         self.im_class = _class
         self.im_func = func
-- 
2.43.0


From 1984b333137e2b35e90891419ad2956717538b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 60/86] fix: functions have a qualified name in 3.3 too

---
 xpython/byteop/byteop33.py | 8 ++++----
 xpython/pyobj.py           | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index d1bb878..a63a420 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -22,7 +22,7 @@ class ByteOp33(ByteOp32):
         variables. The function also has ``argc`` default parameters,
         which are found below the cells.
         """
-        code, name = self.vm.popn(2)
+        code, qualname = self.vm.popn(2)
         closure = self.vm.pop()
 
         defaults, kwdefaults, annotations = self.pop_function_slots(argc)
@@ -40,6 +40,7 @@ class ByteOp33(ByteOp32):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname,
         )
 
         self.vm.push(fn)
@@ -60,9 +61,7 @@ class ByteOp33(ByteOp32):
           3.0..3.2)
         * the qualified name of the function (at TOS if 3.3+)
         """
-        # The string function name does not seem to be used.
-        # In the 3.4, it is dropped.
-        self.vm.pop()
+        qualname = self.vm.pop()
         code = self.vm.pop()
         name = code.co_name
 
@@ -81,6 +80,7 @@ class ByteOp33(ByteOp32):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname,
         )
 
         self.vm.push(fn)
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 7c6f8b8..426bda4 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -201,7 +201,7 @@ class Function:
         if vm.version >= (3, 0):
             self.__annotations__ = annotations
             self.__kwdefaults__ = kwdefaults
-            if vm.version >= (3, 4):
+            if vm.version >= (3, 3):
                 self.__qualname__ = qualname if qualname else self.__name__
             else:
                 assert qualname is None
@@ -320,7 +320,7 @@ class Function:
             self.func_code, callargs, self.func_globals, {}, self.__closure__
         )
         if self.__code__.co_flags & CO_GENERATOR:
-            qualname = self.__qualname__ if self._vm.version >= (3, 4) else None
+            qualname = self.__qualname__ if self._vm.version >= (3, 3) else None
             gen = Generator(
                 g_frame=frame, name=self.__name__, qualname=qualname, vm=self._vm
             )
@@ -646,7 +646,7 @@ class Generator(object):
         self.gi_running = False
         self.gi_code = g_frame.f_code
         self.__name__ = g_frame.f_code.co_name
-        self.__qualname__ = qualname if g_frame.version >= (3, 4) else None
+        self.__qualname__ = qualname if g_frame.version >= (3, 3) else None
 
     def __iter__(self):
         return self
-- 
2.43.0


From 4bf6ea3f8d281b0b3f7efeba480af2c324a8417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 61/86] fix: __new__, __init_subclass__ and __class_getitem__
 of a class are static and class methods

---
 xpython/builtins.py        | 17 +++++++++++++++++
 xpython/byteop/byteop24.py |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 6b4fd06..ba46d7f 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -22,6 +22,21 @@ def func_code(func):
         return func.__code__
 
 
+def make_implicit_methods(namespace, version):
+    """
+    type() makes a static method out of __new__(), and class methods out of some
+    others, only if they are native functions; do the same for interpreted functions.
+    """
+    wrappers = [("__new__", staticmethod)]
+    if version >= (3, 6):
+        wrappers.append(("__init_subclass__", classmethod))
+    if version >= (3, 7):
+        wrappers.append(("__class_getitem__", classmethod))
+    for name, wrapper in wrappers:
+        if isinstance(namespace.get(name), Function):
+            namespace[name] = wrapper(namespace[name])
+
+
 # This code was originally written by Darius Bacon,
 # but follows code from PEP 3115 listed below.
 # Rocky Bernstein did the xdis adaptions and
@@ -93,6 +108,8 @@ def build_class(opc, func, name, *bases, **kwds):
 
     # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
     # but needs a builtin cell object. make_cell() can do this.
+    make_implicit_methods(namespace, opc.version_tuple)
+
     if isinstance(namespace.get("__classcell__"), Cell):
         namespace["__classcell__"] = make_cell(None)
 
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 9716c56..d219faf 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -18,6 +18,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
+from xpython.builtins import make_implicit_methods
 from xpython.pyobj import Function, Traceback, log_function_name
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
@@ -394,6 +395,7 @@ class ByteOp24(ByteOpBase):
         tuple of the names of the base classes, and TOS2 the class name.
         """
         name, bases, methods = self.vm.popn(3)
+        make_implicit_methods(methods, self.vm.version)
         # Note: type() wants to only create new-style classes, while
         # bases might include only old-style classes. This will
         # trigger this error: TypeError: a new-style class can't have
-- 
2.43.0


From 77662abfee57e68d8dc06b174d05ffb0dd492054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 62/86] fix: class keywords reach the metaclass, which is
 called once only

---
 xpython/builtins.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index ba46d7f..64bbff1 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -4,6 +4,7 @@ A place to implement built-in functions.
 We use the bytecode for these when doing cross-version interpreting
 """
 
+import types
 from typing import Any
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
@@ -58,6 +59,10 @@ def build_class(opc, func, name, *bases, **kwds):
     if not isinstance(name, str):
         raise TypeError("name is not a string")
 
+    # Bases that are not classes, as Generic[T], say which classes to use instead.
+    orig_bases = bases
+    bases = types.resolve_bases(bases)
+
     metaclass = kwds.pop("metaclass", None)
 
     if metaclass is None:
@@ -113,18 +118,9 @@ def build_class(opc, func, name, *bases, **kwds):
     if isinstance(namespace.get("__classcell__"), Cell):
         namespace["__classcell__"] = make_cell(None)
 
-    try:
-        cls = metaclass(name, bases, namespace)
-    except TypeError:
-        # For mysterious reasons the above can raise a:
-        #  __init__() takes *n* positional arguments but *n+1* were given.
-        # In particular for:
-        #     class G(Generic[T]):
-        #        pass
-        import types
-
-        cls = types.new_class(name, bases, kwds, exec_body=lambda ns: namespace)
-        pass
+    if bases is not orig_bases:
+        namespace["__orig_bases__"] = orig_bases
+    cls = metaclass(name, bases, namespace, **kwds)
 
     if isinstance(cell, Cell):
         cell.set(cls)
-- 
2.43.0


From 4815bd95898e2b118de40a763404b2f443542ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 63/86] fix: __metaclass__ makes the class in 2.x

---
 xpython/byteop/byteop24.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index d219faf..187abd4 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -401,10 +401,19 @@ class ByteOp24(ByteOpBase):
         # trigger this error: TypeError: a new-style class can't have
         # only classic bases So what we'll do is throw in "object" so
         # there is at least one new-style class.
-        try:
-            klass = type(name, bases, methods)
-        except TypeError:
-            klass = type(name, tuple([object] + list(bases)), methods)
+        metaclass = methods.get("__metaclass__")
+        if metaclass is None:
+            if bases:
+                metaclass = type(bases[0])
+            else:
+                metaclass = self.vm.frame.f_globals.get("__metaclass__", type)
+        if metaclass is type:
+            try:
+                klass = type(name, bases, methods)
+            except TypeError:
+                klass = type(name, tuple([object] + list(bases)), methods)
+        else:
+            klass = metaclass(name, bases, methods)
         self.vm.push(klass)
 
     def STORE_NAME(self, name):
-- 
2.43.0


From 7fea7edef88a79c04d4ab25ffb7b065d2a88ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 64/86] fix: __nonzero__ and next of 2.x classes are called

---
 xpython/byteop/byteop24.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 187abd4..7171a1a 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -79,6 +79,21 @@ class Traceback24(Traceback):
 
 
 # pylint: disable=too-many-public-methods
+def bool_from_nonzero(self):
+    """__bool__() of a 2.x class that has a __nonzero__()"""
+    value = type(self).__nonzero__(self)
+    if not isinstance(value, int):
+        raise TypeError(
+            f"__nonzero__ should return bool or int, returned {type(value).__name__}"
+        )
+    return bool(value)
+
+
+def next_from_next(self):
+    """__next__() of a 2.x class that has a next()"""
+    return type(self).next(self)
+
+
 class ByteOp24(ByteOpBase):
     """
     Python 2.4 opcodes
@@ -401,6 +416,14 @@ class ByteOp24(ByteOpBase):
         # trigger this error: TypeError: a new-style class can't have
         # only classic bases So what we'll do is throw in "object" so
         # there is at least one new-style class.
+        # What runs this knows some special methods under their 3.x names only.
+        for name2, name3, method in (
+            ("__nonzero__", "__bool__", bool_from_nonzero),
+            ("next", "__next__", next_from_next),
+        ):
+            if name2 in methods and name3 not in methods:
+                methods[name3] = method
+
         metaclass = methods.get("__metaclass__")
         if metaclass is None:
             if bases:
-- 
2.43.0


From 5bc8ae5e33feed1605d9f19f6e7366581f9003f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 65/86] fix: methods have __self__, __func__ and the attributes
 of their function

---
 xpython/pyobj.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 426bda4..b75ff55 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -364,6 +364,20 @@ class Method(object):
         else:
             return f"<Unbound Method {name}>"
 
+    @property
+    def __self__(self):
+        return self.im_self
+
+    @property
+    def __func__(self):
+        return self.im_func
+
+    def __getattr__(self, name):
+        # What a method does not have itself is that of its function.
+        if name == "im_func":
+            raise AttributeError(name)
+        return getattr(self.im_func, name)
+
     # Each attribute access makes a Method. They are equal when they call
     # the same function for the same object.
     def __eq__(self, other):
-- 
2.43.0


From c80d376d2c4cb3127608fbd26ea4a8925e9a0ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 66/86] fix: functions and methods have the __module__ of their
 globals

---
 xpython/pyobj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index b75ff55..2a3ee2d 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -193,6 +193,7 @@ class Function:
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
         self.__dict__ = {"version": vm.version, "_vm": vm}
+        self.__module__ = globs.get("__name__")
 
         self.__doc__ = (
             code.co_consts[0] if hasattr(code, "co_consts") and code.co_consts else None
@@ -351,6 +352,8 @@ class Method(object):
             self.func_code = func.func_code
         if hasattr(func, "__name__"):
             self.__name__ = func.__name__
+        if hasattr(func, "__module__"):
+            self.__module__ = func.__module__
         if hasattr(func, "__code__"):
             self.__code__ = func.__code__
 
-- 
2.43.0


From 5f917130f2a6661614a35f3954ab83cfb735f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 67/86] fix: the first constant of a function is its
 documentation only if it is a string

---
 xpython/pyobj.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 2a3ee2d..d3c4294 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -195,8 +195,14 @@ class Function:
         self.__dict__ = {"version": vm.version, "_vm": vm}
         self.__module__ = globs.get("__name__")
 
+        # The first constant is the docstring only if it is a string.
+        doc_types = (str,) if vm.version >= (3, 0) else (str, bytes)
         self.__doc__ = (
-            code.co_consts[0] if hasattr(code, "co_consts") and code.co_consts else None
+            code.co_consts[0]
+            if hasattr(code, "co_consts")
+            and code.co_consts
+            and isinstance(code.co_consts[0], doc_types)
+            else None
         )
 
         if vm.version >= (3, 0):
-- 
2.43.0


From 5e0e5ae42a72457f7fadb11bba0f25ce9f2eac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 68/86] fix: logging does not ask an object of the program for
 its __class__

---
 xpython/pyobj.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d3c4294..21326d8 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -8,6 +8,7 @@ from copy import copy
 from sys import stderr
 
 from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, iscode
+from xdis.codetype.base import CodeBase
 from xdis.cross_dis import findlinestarts
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.stdlib.types34 import _AsyncGeneratorWrapper
@@ -28,6 +29,15 @@ def copy_module(old_module) -> ModuleType:
     return new_module
 
 
+def is_code_type(kind) -> bool:
+    """
+    Whether `kind`, the type() of some object, is that of a code object. Unlike
+    iscode() this does not look at the __class__ attribute of the object, which
+    the program that we are interpreting may compute.
+    """
+    return issubclass(kind, (types.CodeType, CodeBase))
+
+
 def log_repr(obj, depth: int = 4) -> str:
     """
     The repr() of `obj` that we show in the log. Some objects have a __repr__() or
@@ -55,7 +65,7 @@ def log_repr(obj, depth: int = 4) -> str:
     elif kind is Method:
         name = log_function_name(obj.im_func)
         return f"<{'Unbound' if obj.im_self is None else 'Bound'} Method {name}>"
-    elif kind in SIMPLE_REPR_TYPES or iscode(obj):
+    elif kind in SIMPLE_REPR_TYPES or is_code_type(kind):
         return repr(obj)
     return object.__repr__(obj)
 
@@ -65,7 +75,7 @@ def log_function_name(obj) -> str:
     The name of function, class, or code object `obj` that we show in the log,
     or an empty string if `obj` is something else. See also log_repr().
     """
-    if iscode(obj):
+    if is_code_type(type(obj)):
         return obj.co_name
     elif type(obj) in (type, Function, Method) + NATIVE_FUNCTION_TYPES:
         return str(getattr(obj, "__name__", ""))
-- 
2.43.0


From b528bddd8dec145c4993fed7baa2a3fc3a667ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 69/86] fix: type(name, bases, namespace) leaves the namespace
 alone

---
 xpython/byteop/byteop.py    | 35 ++++++++++++++++++++++++++++-------
 xpython/byteop/byteop311.py | 11 ++++-------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 3fe5c72..dbfc10c 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -176,6 +176,30 @@ class ByteOpBase(object):
         elts = self.vm.popn(count)
         self.vm.push(container_fn(elts))
 
+    def add_class_module(self, func, pos_args: list) -> list:
+        """
+        The arguments to use in the call of `func`, which is type or type.__new__.
+        These take the __module__ of a new class from the globals of their caller,
+        so without one in the namespace of the class we would get our module.
+        The caller's namespace itself is left alone.
+        """
+        bases, namespace = pos_args[-2:]
+        if (
+            not isinstance(namespace, dict)
+            or "__module__" in namespace
+            or "__name__" not in self.vm.frame.f_globals
+        ):
+            return pos_args
+        if func is type and isinstance(bases, tuple):
+            # A __new__() of the program gets to see the namespace as it is;
+            # we will come here again when that calls type.__new__().
+            for base in bases:
+                if type(base).__new__ not in (type.__new__, object.__new__):
+                    return pos_args
+        namespace = dict(namespace)
+        namespace["__module__"] = self.vm.frame.f_globals["__name__"]
+        return list(pos_args[:-1]) + [namespace]
+
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
         pos_args = list(pos_args)
@@ -337,13 +361,10 @@ class ByteOpBase(object):
                     init_fn = pos_args[0]
                     if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
                         pos_args[0] = self.vm.fn2native[init_fn]
-        elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
-            namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
+        elif (func is type and len(pos_args) == 3) or (
+            func is type.__new__ and len(pos_args) == 4
+        ):
+            pos_args = self.add_class_module(func, pos_args)
 
         if (
             inspect.isfunction(func)
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index b12e866..200084d 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -198,13 +198,10 @@ class ByteOp311(ByteOp310):
                     init_fn = pos_args[0]
                     if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
                         pos_args[0] = self.vm.fn2native[init_fn]
-        elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
-            namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
+        elif (func is type and len(pos_args) == 3) or (
+            func is type.__new__ and len(pos_args) == 4
+        ):
+            pos_args = self.add_class_module(func, pos_args)
 
         if (
             inspect.isfunction(func)
-- 
2.43.0


From be99a3d71ad1a0f640ea7504df7f411d68352d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 70/86] fix: calling, raising and catching an object does not
 ask it for its __class__

---
 xpython/byteop/byteop.py     | 18 +++++++++---------
 xpython/byteop/byteop24.py   | 14 +++++++-------
 xpython/byteop/byteop311.py  | 11 ++++++-----
 xpython/byteop/byteop32.py   |  6 +++---
 xpython/byteop/byteoppypy.py |  6 ++++--
 xpython/pyobj.py             | 16 +++++++++-------
 6 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index dbfc10c..f336fa5 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, Method, copy_module
+from xpython.pyobj import Function, Method, copy_module, has_type
 from xpython.vm import PyVM
 
 
@@ -223,7 +223,7 @@ class ByteOpBase(object):
             func = func.im_func
 
         # FIXME: put this in a separate routine.
-        if inspect.isbuiltin(func):
+        if has_type(func, types.BuiltinFunctionType):
             log.debug(f"handling built-in function {func.__name__}")
             if func == globals:
                 # Use the frame's globals(), not the interpreter's
@@ -367,7 +367,7 @@ class ByteOpBase(object):
             pos_args = self.add_class_module(func, pos_args)
 
         if (
-            inspect.isfunction(func)
+            has_type(func, types.FunctionType)
             and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
         ):
             # Try to convert to an interpreter function, so we can interpret it.
@@ -375,11 +375,11 @@ class ByteOpBase(object):
                 func = self.vm.fn2native[func]
 
         if (
-            inspect.isfunction(func)
+            has_type(func, types.FunctionType)
             and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
         ):
             log.debug(f"calling native function {func.__name__}")
-        elif inspect.isclass(func):
+        elif has_type(func, type):
             if func is super:
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
@@ -477,11 +477,11 @@ class ByteOpBase(object):
             else:
                 return "reraise"
 
-        elif isinstance(exc, type) and issubclass(exc, BaseException):
+        elif has_type(exc, type) and issubclass(exc, BaseException):
             # As in `raise ValueError`
             exc_type = exc
             val = exc()  # Make an instance.
-        elif isinstance(exc, BaseException):
+        elif has_type(exc, BaseException):
             # As in `raise ValueError('foo')`
             exc_type = type(exc)
             val = exc
@@ -492,9 +492,9 @@ class ByteOpBase(object):
         # val is a valid exception instance and exc_type is its class.
         # Now do a similar thing for the cause, if present.
         if cause:
-            if isinstance(cause, type) and issubclass(cause, BaseException):
+            if has_type(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
-            elif not isinstance(cause, BaseException):
+            elif not has_type(cause, BaseException):
                 raise TypeError("exception causes must derive from BaseException")
 
             val.__cause__ = cause
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 7171a1a..6a73c07 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -19,7 +19,7 @@ from xpython.byteop.byteop import (
     fmt_unary_op,
 )
 from xpython.builtins import make_implicit_methods
-from xpython.pyobj import Function, Traceback, log_function_name
+from xpython.pyobj import Function, Traceback, has_type, log_function_name
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -579,9 +579,9 @@ class ByteOp24(ByteOpBase):
 
         Changed in 3.0
         """
-        if isinstance(match, tuple):
+        if has_type(match, tuple):
             return sum((self.exception_classes(m) for m in match), ())
-        return (match,) if isinstance(match, type) else ()
+        return (match,) if has_type(match, type) else ()
 
     def COMPARE_OP(self, opname: int):
         """Performs a Boolean operation. The operation name can be
@@ -926,16 +926,16 @@ class ByteOp24(ByteOpBase):
             exctype = self.vm.pop()
 
         # There are a number of forms of "raise", normalize them somewhat.
-        if isinstance(exctype, BaseException):
+        if has_type(exctype, BaseException):
             val = exctype
             exctype = type(val)
-        elif not (isinstance(exctype, type) and issubclass(exctype, BaseException)):
+        elif not (has_type(exctype, type) and issubclass(exctype, BaseException)):
             raise TypeError("exceptions must be classes or instances")
         elif val is None:
             val = exctype()
-        elif isinstance(val, tuple):
+        elif has_type(val, tuple):
             val = exctype(*val)
-        elif not isinstance(val, exctype):
+        elif not has_type(val, exctype):
             val = exctype(val)
 
         self.vm.last_exception = (exctype, val, tb)
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 200084d..e7ccbbc 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -9,6 +9,7 @@
 
 import inspect
 import logging
+import types
 from typing import Tuple
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
@@ -22,7 +23,7 @@ from xpython.byteop.byteop36 import (
 from xpython.builtins import build_class, builtin_super
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310
-from xpython.pyobj import Cell, Function
+from xpython.pyobj import Cell, Function, has_type
 
 log = logging.getLogger(__name__)
 
@@ -70,7 +71,7 @@ class ByteOp311(ByteOp310):
             return
 
         # FIXME: put this in a separate routine.
-        if inspect.isbuiltin(func):
+        if has_type(func, types.BuiltinFunctionType):
             log.debug(f"handling built-in function {func.__name__}")
             if func == globals:
                 # Use the frame's globals(), not the interpreter's
@@ -204,7 +205,7 @@ class ByteOp311(ByteOp310):
             pos_args = self.add_class_module(func, pos_args)
 
         if (
-            inspect.isfunction(func)
+            has_type(func, types.FunctionType)
             and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
         ):
             # Try to convert to an interpreter function, so we can interpret it.
@@ -222,11 +223,11 @@ class ByteOp311(ByteOp310):
                 pos_args[0] = self.convert_native_to_Function(frame, pos_args[0])
 
         if (
-            inspect.isfunction(func)
+            has_type(func, types.FunctionType)
             and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
         ):
             log.debug(f"calling native function {func.__name__}")
-        elif inspect.isclass(func):
+        elif has_type(func, type):
             if func.__name__ == "super":
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 4f39956..ffa31ad 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -5,7 +5,7 @@ import inspect
 
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
-from xpython.pyobj import Cell, Function
+from xpython.pyobj import Cell, Function, has_type
 
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
@@ -50,8 +50,8 @@ class ByteOp32(ByteOp27):
     # Changed in 3.0
     def exception_classes(self, match):
         """The classes an "except" clause with the expression `match` catches."""
-        for cls in match if isinstance(match, tuple) else (match,):
-            if not (isinstance(cls, type) and issubclass(cls, BaseException)):
+        for cls in match if has_type(match, tuple) else (match,):
+            if not (has_type(cls, type) and issubclass(cls, BaseException)):
                 raise TypeError(
                     "catching classes that do not inherit from BaseException "
                     "is not allowed"
diff --git a/xpython/byteop/byteoppypy.py b/xpython/byteop/byteoppypy.py
index 634d2c4..bd0f452 100644
--- a/xpython/byteop/byteoppypy.py
+++ b/xpython/byteop/byteoppypy.py
@@ -2,7 +2,9 @@
 
 Specific PyPy versions i.e. PyPy 2.7, 3.2, 3.5-3.7 inherit this.
 """
-import inspect
+import types
+
+from xpython.pyobj import has_type
 
 
 class ByteOpPyPy(object):
@@ -44,7 +46,7 @@ class ByteOpPyPy(object):
         val = getattr(obj, name)
         self.vm.push(val)
         if self.version_info[:2] >= (3, 7):
-            if inspect.isfunction(val) or inspect.isbuiltin(val):
+            if has_type(val, (types.FunctionType, types.BuiltinFunctionType)):
                 self.vm.push("LOAD_METHOD lookup success")
             else:
                 self.vm.push("fill in attribute method lookup")
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 21326d8..3147f96 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -29,13 +29,15 @@ def copy_module(old_module) -> ModuleType:
     return new_module
 
 
-def is_code_type(kind) -> bool:
+def has_type(obj, types_) -> bool:
     """
-    Whether `kind`, the type() of some object, is that of a code object. Unlike
-    iscode() this does not look at the __class__ attribute of the object, which
-    the program that we are interpreting may compute.
+    Like isinstance(obj, types_), but this does not look at the __class__ attribute
+    of `obj`, which the program that we are interpreting may compute.
     """
-    return issubclass(kind, (types.CodeType, CodeBase))
+    return issubclass(type(obj), types_)
+
+
+CODE_TYPES = (types.CodeType, CodeBase)
 
 
 def log_repr(obj, depth: int = 4) -> str:
@@ -65,7 +67,7 @@ def log_repr(obj, depth: int = 4) -> str:
     elif kind is Method:
         name = log_function_name(obj.im_func)
         return f"<{'Unbound' if obj.im_self is None else 'Bound'} Method {name}>"
-    elif kind in SIMPLE_REPR_TYPES or is_code_type(kind):
+    elif kind in SIMPLE_REPR_TYPES or issubclass(kind, CODE_TYPES):
         return repr(obj)
     return object.__repr__(obj)
 
@@ -75,7 +77,7 @@ def log_function_name(obj) -> str:
     The name of function, class, or code object `obj` that we show in the log,
     or an empty string if `obj` is something else. See also log_repr().
     """
-    if is_code_type(type(obj)):
+    if has_type(obj, CODE_TYPES):
         return obj.co_name
     elif type(obj) in (type, Function, Method) + NATIVE_FUNCTION_TYPES:
         return str(getattr(obj, "__name__", ""))
-- 
2.43.0


From f13647ad90fea1218e56b3183ad5db17da4997ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 71/86] fix: a 2.x metaclass that rejects the bases of a class
 is not called twice

---
 xpython/byteop/byteop24.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 6a73c07..b84b9d7 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -411,11 +411,6 @@ class ByteOp24(ByteOpBase):
         """
         name, bases, methods = self.vm.popn(3)
         make_implicit_methods(methods, self.vm.version)
-        # Note: type() wants to only create new-style classes, while
-        # bases might include only old-style classes. This will
-        # trigger this error: TypeError: a new-style class can't have
-        # only classic bases So what we'll do is throw in "object" so
-        # there is at least one new-style class.
         # What runs this knows some special methods under their 3.x names only.
         for name2, name3, method in (
             ("__nonzero__", "__bool__", bool_from_nonzero),
@@ -430,14 +425,9 @@ class ByteOp24(ByteOpBase):
                 metaclass = type(bases[0])
             else:
                 metaclass = self.vm.frame.f_globals.get("__metaclass__", type)
-        if metaclass is type:
-            try:
-                klass = type(name, bases, methods)
-            except TypeError:
-                klass = type(name, tuple([object] + list(bases)), methods)
-        else:
-            klass = metaclass(name, bases, methods)
-        self.vm.push(klass)
+        # If the metaclass rejects the bases, another try with other bases would
+        # have the program's code in it run a second time.
+        self.vm.push(metaclass(name, bases, methods))
 
     def STORE_NAME(self, name):
         """Implements name = TOS. namei is the index of name in the attribute
-- 
2.43.0


From ecc0bcae9f16ad5212249a392c3166375d1fdd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 72/86] fix: a program run with a callback ended with exit
 status 0 although it failed

---
 xpython/execfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index a8ad435..c4d5c1a 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -82,7 +82,7 @@ def exec_code_object(
             format_instruction_func=format_instruction,
         )
         try:
-            vm.run_code(code, f_globals=env)
+            rc = vm.run_code(code, f_globals=env)
         except PyVMUncaughtException:
             vm.last_exception = event_arg = (
                 vm.last_exception[0],
-- 
2.43.0


From 7efe72ca794a6d6e58edc8cf419edc0ef9302c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 73/86] fix: what a program did to sys.path remained, or
 displaced other entries, after the run

---
 xpython/execfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index c4d5c1a..64fbecd 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -178,7 +178,7 @@ def run_python_file(
 
     # set sys.argv and the first path element properly.
     old_argv = sys.argv
-    old_path0 = sys.path[0]
+    old_path = list(sys.path)
 
     # note: the type of args is na tuple; we want type(sys.argv) == list
     sys.argv = [filename] + list(args)
@@ -268,7 +268,7 @@ def run_python_file(
 
         # Restore the old argv and path
         sys.argv = old_argv
-        sys.path[0] = old_path0
+        sys.path[:] = old_path
 
     sys.exit(rc)
 
@@ -288,7 +288,7 @@ def run_python_string(
 
     # Set sys.argv and the first path element properly.
     old_argv = sys.argv
-    old_path0 = sys.path[0]
+    old_path = list(sys.path)
     sys.argv = [fake_path] + list(args)
 
     try:
@@ -322,7 +322,7 @@ def run_python_string(
 
         # Restore the old argv and path
         sys.argv = old_argv
-        sys.path[0] = old_path0
+        sys.path[:] = old_path
 
     sys.exit(rc)
 
-- 
2.43.0


From ea801671eb46ee210cb9f848d729fcffce1f88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 74/86] fix: options after the program's name were taken for
 options of xpython

---
 xpython/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xpython/__main__.py b/xpython/__main__.py
index 21bcb61..9180553 100644
--- a/xpython/__main__.py
+++ b/xpython/__main__.py
@@ -17,7 +17,10 @@ def version_message() -> str:
     return mess
 
 
-@click.command()
+@click.command(
+    # What follows PATH belongs to the program.
+    context_settings={"allow_interspersed_args": False}
+)
 @click.version_option(version_message(), "-V", "--version")
 @click.option(
     "-m",
-- 
2.43.0


From 53e5b28af063b1a0118440fd222bf8861036c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 75/86] fix: builtin functions of Python 2 stayed in the
 process after a Python 2 program had run

---
 xpython/execfile.py        | 15 ++++++++++++---
 xpython/stdlib/builtins.py | 19 +++++++++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 64fbecd..0a4c864 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -13,7 +13,7 @@ from typing import Optional
 from xdis import load_module
 from xdis.version_info import IS_PYPY, PYTHON_IMPLEMENTATION, PYTHON_VERSION_TRIPLE, PythonImplementation, version_tuple_to_str
 
-from xpython.stdlib.builtins import make_compatible_builtins
+from xpython.stdlib.builtins import make_compatible_builtins, remove_compatible_builtins
 from xpython.version_info import SUPPORTED_BYTECODE, SUPPORTED_PYPY, SUPPORTED_PYTHON
 from xpython.vm import PyVM, PyVMUncaughtException, format_instruction
 from xpython.vmtrace import PyVMTraced
@@ -91,13 +91,16 @@ def exec_code_object(
             )
             callback("fatal", 0, "fatalOpcode", 0, -1, event_arg, [], vm)
     else:
+        added_builtins = []
         if python_version != PYTHON_VERSION_TRIPLE[:2]:
-            make_compatible_builtins(BUILTINS.__dict__, python_version)
+            added_builtins = make_compatible_builtins(BUILTINS.__dict__, python_version)
         vm = PyVM(python_version, python_implementation, format_instruction_func=format_instruction)
         try:
             rc = vm.run_code(code, f_globals=env)
         except PyVMUncaughtException:
             pass
+        finally:
+            remove_compatible_builtins(BUILTINS.__dict__, added_builtins)
 
     return rc
 
@@ -189,6 +192,7 @@ def run_python_file(
         sys.path[0] = osp.abspath(osp.dirname(filename))
 
     python_implementation = PYTHON_IMPLEMENTATION
+    added_builtins = []
     try:
         # Open the source or bytecode file.
         try:
@@ -213,7 +217,9 @@ def run_python_file(
                         % (mess, filename, version_tuple_to_str(python_version))
                     )
                 main_mod.__file__ = code.co_filename
-                make_compatible_builtins(main_mod.__builtins__.__dict__, python_version)
+                added_builtins = make_compatible_builtins(
+                    main_mod.__builtins__.__dict__, python_version
+                )
 
                 if source_is_older(code.co_filename, filename):
                     print(
@@ -270,6 +276,9 @@ def run_python_file(
         sys.argv = old_argv
         sys.path[:] = old_path
 
+        # Python 2's builtin functions are not for what runs next
+        remove_compatible_builtins(BUILTINS.__dict__, added_builtins)
+
     sys.exit(rc)
 
 
diff --git a/xpython/stdlib/builtins.py b/xpython/stdlib/builtins.py
index 64e9dc1..5b7fa05 100644
--- a/xpython/stdlib/builtins.py
+++ b/xpython/stdlib/builtins.py
@@ -17,14 +17,17 @@ from io import open
 from sys import intern
 
 
-def make_compatible_builtins(builtins: dict, target_python: tuple) -> None:
+def make_compatible_builtins(builtins: dict, target_python: tuple) -> list:
     """
     Add functions in builtins dictionary with functions that do the same
     thing.
 
     This is needed when doing cross-bytecode interpretation
     because the list of builtin functions varies between different Python versions.
+
+    The names added are returned, see remove_compatible_builtins().
     """
+    added = []
     if type(target_python) is not tuple:
         target_python = (int(str(target_python)[0]), int(str(target_python)[2]))
     short_name = f"builtins_{target_python[0]}{target_python[1]}"
@@ -32,7 +35,7 @@ def make_compatible_builtins(builtins: dict, target_python: tuple) -> None:
     try:
         module_root = import_fn(import_name)
     except Exception:
-        return
+        return added
     if hasattr(module_root, "stdlib"):
         stdlib_mod = getattr(module_root, "stdlib")
         if hasattr(stdlib_mod, short_name):
@@ -42,6 +45,7 @@ def make_compatible_builtins(builtins: dict, target_python: tuple) -> None:
                 if builtin_name in compatable_fns:
                     # print("XXX", builtin_name)
                     builtins[builtin_name] = compatable_fns[builtin_name]
+                    added.append(builtin_name)
                 else:
                     print(
                         "FIXME: add %s-compatible builtin function for %s from Python %s"
@@ -51,6 +55,17 @@ def make_compatible_builtins(builtins: dict, target_python: tuple) -> None:
                             PYTHON_VERSION_TRIPLE[:2],
                         )
                     )
+    return added
+
+
+def remove_compatible_builtins(builtins: dict, added: list) -> None:
+    """
+    Undo make_compatible_builtins(). "builtins" is usually that of the running
+    Python, which does not have these functions.
+    """
+    for builtin_name in added:
+        if builtins.get(builtin_name) is compatable_fns[builtin_name]:
+            del builtins[builtin_name]
 
 
 def apply(f: Callable, args=None, kwargs=None) -> Any:
-- 
2.43.0


From 98451d53145d243e214812f24b86a64a04a26a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 76/86] fix: import statements of Python 2.4 and 2.5 take
 fromlist and level off the stack and use fromlist

---
 xpython/byteop/byteop24.py |  7 +++++--
 xpython/byteop/byteop25.py | 30 +++++++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index b84b9d7..dfccfbf 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -593,14 +593,17 @@ class ByteOp24(ByteOpBase):
         proper import statement, a subsequent STORE_FAST instruction
         modifies the namespace.
 
+        TOS is popped and provides the fromlist argument of __import__().
+
         Note: name = co_names[namei] set in parse_byte_and_args()
 
-        Changed in 2.6
+        Changed in 2.5
         """
+        fromlist = self.vm.pop()
         frame = self.vm.frame
 
         module = import_fn(
-            name, frame.f_globals, frame.f_locals, fromlist=None, level=0
+            name, frame.f_globals, frame.f_locals, fromlist=fromlist, level=0
         )
 
         if module is sys:
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 6a4ccfb..fffa144 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -4,15 +4,43 @@
 Note: this is subclassed. Later versions use operations from here.
 """
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+import sys
+
+from xpython.byteop.byteop24 import ByteOp24, Version_info, fmt_binary_op, import_fn
 
 
 class ByteOp25(ByteOp24):
     def __init__(self, vm):
         super().__init__(vm)
+        self.stack_fmt["IMPORT_NAME"] = fmt_binary_op
         self.version = "2.5.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(2, 5, 6, "final", 0)
 
+    # Changed in Python 2.5: there is a level.
+    def IMPORT_NAME(self, name):
+        """
+        Imports the module co_names[namei]. TOS and TOS1 are popped and
+        provide the fromlist and level arguments of __import__().  The
+        module object is pushed onto the stack.  The current namespace
+        is not affected: for a proper import statement, a subsequent
+        STORE_FAST instruction modifies the namespace.
+
+        Note: name = co_names[namei] set in parse_byte_and_args()
+        """
+        level, fromlist = self.vm.popn(2)
+        frame = self.vm.frame
+
+        # A level of -1 means try relative imports before absolute imports.
+        # As in 2.6, we only do the latter.
+        module = import_fn(
+            name, frame.f_globals, frame.f_locals, fromlist, max(level, 0)
+        )
+
+        if module is sys:
+            module = self.setup_sys_module()
+
+        self.vm.push(module)
+
     # New in Python 2.5 but changes in 3.3.
     def WITH_CLEANUP(self):
         """Cleans up the stack when a "with" statement block exits. On top of
-- 
2.43.0


From dc3d3076a93e1e6da9e20f2b54e6957a82f2fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 77/86] fix: IMPORT_FROM asks the module for the attribute only
 once

---
 xpython/byteop/byteop24.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index dfccfbf..46ed6b0 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -620,7 +620,9 @@ class ByteOp24(ByteOpBase):
         Note: name = co_names[namei] set in parse_byte_and_args()
         """
         mod = self.vm.top
-        if not hasattr(mod, name):
+        try:
+            value = getattr(mod, name)
+        except AttributeError:
             if not hasattr(mod, "__file__"):
                 # Builtins don't have a __file__ attribute
                 value = ImportError(f"cannot import name '{name}' from '{mod.__name__}")
@@ -632,7 +634,7 @@ class ByteOp24(ByteOpBase):
             self.vm.last_exception = (ImportError, value, None)
             return "exception"
 
-        self.vm.push(getattr(mod, name))
+        self.vm.push(value)
 
     # Jumps
 
-- 
2.43.0


From 135eba09207fad7455c755cdeff946bd02bf0343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 78/86] fix: IMPORT_FROM of 3.5 on finds a submodule that is
 not an attribute of its package

---
 xpython/byteop/byteop24.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 46ed6b0..7ef2535 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -623,6 +623,16 @@ class ByteOp24(ByteOpBase):
         try:
             value = getattr(mod, name)
         except AttributeError:
+            if self.version_info[:2] >= (3, 5):
+                # It can be a submodule which its package does not have (yet)
+                try:
+                    value = sys.modules[f"{mod.__name__}.{name}"]
+                except (AttributeError, KeyError):
+                    pass
+                else:
+                    self.vm.push(value)
+                    return
+
             if not hasattr(mod, "__file__"):
                 # Builtins don't have a __file__ attribute
                 value = ImportError(f"cannot import name '{name}' from '{mod.__name__}")
-- 
2.43.0


From c7832070fbb86eb779c7af0b35370cd777e11020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 79/86] fix: the with statement asks the type for __enter__ and
 __exit__, and 3.6 on for __enter__ first

---
 xpython/byteop/byteop27.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index e1438bf..d7a95ce 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -21,6 +21,18 @@ def fmt_map_add(vm, arg, repr_fn=repr):
     )
 
 
+def special_method(obj, name):
+    """Returns special method `name` of `obj`. It is the type of `obj` that is
+    asked for it, as the interpreter does, and not `obj`."""
+    cls = type(obj)
+    for base in cls.__mro__:
+        if name in base.__dict__:
+            method = base.__dict__[name]
+            get = getattr(type(method), "__get__", None)
+            return method if get is None else get(method, obj, cls)
+    raise AttributeError(name)
+
+
 class ByteOp27(ByteOp26):
     # Opcodes of earlier versions that this version does not have.
     # These are masked here rather than deleted from the class they come from,
@@ -119,26 +131,32 @@ class ByteOp27(ByteOp26):
         """
         context_manager = self.vm.pop()
 
+        # Python 3.6 looks for __enter__ first.
+        enter_first = self.version_info[:2] >= (3, 6) and not self.is_pypy
+        if enter_first:
+            enter_method = special_method(context_manager, "__enter__")
+        exit_method = special_method(context_manager, "__exit__")
+        if not enter_first:
+            enter_method = special_method(context_manager, "__enter__")
+
         # Make sure __enter__ and __exit__ functions in context_manager are
         # converted to our Function type, so we can interpret them.
         # Note though that built-in functions can't be traced.
         if self.version[:2] == PYTHON_VERSION_TRIPLE[:2] and not inspect.isbuiltin(
-            context_manager.__exit__
+            exit_method
         ):
             try:
                 exit_method = self.convert_method_native_func(
-                    self.vm.frame, context_manager.__exit__
+                    self.vm.frame, exit_method
                 )
             except Exception:
-                exit_method = context_manager.__exit__
-        else:
-            exit_method = context_manager.__exit__
+                pass
         self.vm.push(exit_method)
         if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2] and not inspect.isbuiltin(
-            context_manager.__enter__
+            enter_method
         ):
-            self.convert_method_native_func(self.vm.frame, context_manager.__enter__)
-        finally_block = context_manager.__enter__()
+            self.convert_method_native_func(self.vm.frame, enter_method)
+        finally_block = enter_method()
         if self.version_info[:2] < (3, 0):
             self.vm.push_block("with", delta)
         else:
-- 
2.43.0


From 5688915646f31c91039f84b7bd8b5a809c34cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 80/86] fix: functions do not share their annotations and
 keyword defaults

---
 xpython/pyobj.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 3147f96..9983687 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -113,8 +113,8 @@ COMPREHENSION_FN_NAMES = frozenset(
 
 
 class Function:
-    """Function(name, code, globals, argdefs, closure, vm,  kwdefaults={},
-                annotations={}, doc=None, qualname=None)
+    """Function(name, code, globals, argdefs, closure, vm,  kwdefaults=None,
+                annotations=None, doc=None, qualname=None)
 
     Create a function object in vm from a code object and a dictionary.
     The name string overrides the name from the code object.
@@ -160,8 +160,8 @@ class Function:
         argdefs,
         closure,
         vm,
-        kwdefaults={},
-        annotations={},
+        kwdefaults=None,
+        annotations=None,
         doc=None,
         qualname=None,
     ) -> None:
@@ -217,6 +217,10 @@ class Function:
             else None
         )
 
+        # Each function has annotations of its own.
+        annotations = {} if annotations is None else annotations
+        kwdefaults = kwdefaults or None
+
         if vm.version >= (3, 0):
             self.__annotations__ = annotations
             self.__kwdefaults__ = kwdefaults
@@ -226,7 +230,7 @@ class Function:
                 assert qualname is None
         else:
             assert annotations == {}
-            assert kwdefaults == {}
+            assert kwdefaults is None
 
         # In Python 3.x is various generators and list comprehensions have a .0 arg
         # but inspect doesn't show that. In the various MAKE_FUNCTION routines,
-- 
2.43.0


From 0ee734de1ce7bc7c362463bff5ff063fc8072cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 81/86] fix: generators have throw() and close()

---
 xpython/byteop/byteop33.py |   2 +
 xpython/pyobj.py           | 107 +++++++++++++++++++++++++++++++++++++
 xpython/vm.py              |  16 +++++-
 xpython/vmtrace.py         |   8 ++-
 4 files changed, 130 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index a63a420..224fafd 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -91,6 +91,7 @@ class ByteOp33(ByteOp32):
         """
         u = self.vm.pop()
         x = self.vm.top
+        self.vm.frame.delegate = None
 
         try:
             if u is None:
@@ -103,6 +104,7 @@ class ByteOp33(ByteOp32):
             self.vm.pop()
             self.vm.push(e.value)
         else:
+            self.vm.frame.delegate = (x, self.vm.frame.f_lasti)
             # FIXME: The code has the effect of rerunning the last instruction.
             # I'm not sure if or why it is correct.
             if self.vm.version >= (3, 6):
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 9983687..6beece0 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -567,6 +567,12 @@ class Frame(object):
         # and other places which is why we don't set it to the more correct -1.
         self.f_lasti = -1
 
+        # For generators: the exception that is to be raised when the frame goes on
+        # and, when it is suspended in YIELD_FROM, the iterator that delegates to and
+        # the offset of the instruction.
+        self.thrown = None
+        self.delegate = None
+
         if f_code.co_cellvars:
             self.cells = {}
             for var in f_code.co_cellvars:
@@ -703,6 +709,10 @@ class Generator(object):
         # Before 2.5, yield is a statement and there is no value to be popped.
         if not self.started or self.vm.version >= (2, 5):
             self.gi_frame.stack.append(value)
+        return self.resume()
+
+    def resume(self):
+        """Goes on to the next yield."""
         self.started = True
         self.gi_running = True
         try:
@@ -721,6 +731,103 @@ class Generator(object):
 
     __next__ = next
 
+    # New in 2.5
+    def throw(self, *args):
+        """throw(type[, value[, traceback]]): raises an exception where the
+        generator is suspended, and goes on to the next yield.
+        """
+        if not 1 <= len(args) <= 3:
+            raise TypeError(f"throw expected 1 to 3 arguments, got {len(args)}")
+        if self.gi_running:
+            raise ValueError("generator already executing")
+        if self.gi_frame.delegate:
+            cls = args[0] if isinstance(args[0], type) else type(args[0])
+            if issubclass(cls, GeneratorExit):
+                error = self.close_delegate()
+                if error is not None:
+                    return self.raise_in_frame(error)
+            else:
+                throw = getattr(self.gi_frame.delegate[0], "throw", None)
+                if throw is not None:
+                    return self.throw_to_delegate(throw, args)
+        return self.raise_in_frame(thrown_exception(*args))
+
+    def throw_to_delegate(self, throw, args):
+        self.gi_running = True
+        try:
+            return throw(*args)
+        except StopIteration as e:
+            # This is the end of the YIELD_FROM instruction, with its result.
+            self.gi_frame.stack[-1] = e.value
+            self.gi_frame.f_lasti = self.gi_frame.delegate[1]
+        except BaseException as e:
+            self.gi_frame.thrown = type(e), e, e.__traceback__
+        finally:
+            self.gi_running = False
+        self.gi_frame.delegate = None
+        return self.resume()
+
+    def close_delegate(self):
+        """Closes the iterator we have delegated to. Returns the exception that
+        gives, if any."""
+        self.gi_running = True
+        try:
+            close = getattr(self.gi_frame.delegate[0], "close", None)
+            if close is not None:
+                close()
+        except BaseException as e:
+            return e
+        finally:
+            self.gi_running = False
+
+    def raise_in_frame(self, exc):
+        if self.finished:
+            raise exc
+        self.gi_frame.delegate = None
+        self.gi_frame.thrown = type(exc), exc, exc.__traceback__
+        return self.resume()
+
+    # New in 2.5
+    def close(self) -> None:
+        """Raises GeneratorExit where the generator is suspended, which should end
+        it."""
+        if self.gi_running:
+            raise ValueError("generator already executing")
+        if self.finished:
+            return
+        error = None
+        if self.gi_frame.delegate:
+            error = self.close_delegate()
+        try:
+            self.raise_in_frame(GeneratorExit() if error is None else error)
+        except (GeneratorExit, StopIteration):
+            return
+        raise RuntimeError("generator ignored GeneratorExit")
+
+
+def thrown_exception(cls, value=None, traceback=None):
+    """The exception that the arguments of the "throw" method of a generator
+    describe."""
+    if traceback is not None and not isinstance(traceback, types.TracebackType):
+        raise TypeError("throw() third argument must be a traceback object")
+    if isinstance(cls, type) and issubclass(cls, BaseException):
+        if isinstance(value, cls):
+            return value
+        try:
+            if value is None:
+                return cls()
+            return cls(*value) if isinstance(value, tuple) else cls(value)
+        except BaseException as e:
+            return e
+    if isinstance(cls, BaseException):
+        if value is not None:
+            raise TypeError("instance exception may not have a separate value")
+        return cls
+    raise TypeError(
+        "exceptions must be classes or instances deriving from BaseException, not "
+        f"{type(cls).__name__}"
+    )
+
 
 if __name__ == "__main__":
     frame = Frame(
diff --git a/xpython/vm.py b/xpython/vm.py
index 62e5edf..6d0b9eb 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -844,6 +844,19 @@ class PyVM(object):
             frame.handled_exception = None
         self.handled_exception = handled_exception
 
+    def raise_thrown(self, frame):
+        """When there is an exception to go on with, raise it in `frame`. Returns why
+        the frame is left, if it is."""
+        if not frame.thrown:
+            return None
+        self.last_exception, frame.thrown = frame.thrown, None
+        self.last_traceback = traceback_from_frame(frame)
+        self.in_exception_processing = True
+        why = "exception"
+        while why and frame.block_stack:
+            why = self.manage_block_stack(why)
+        return why
+
     def propagate_exception(self):
         """The frame that was just popped was left by an exception. Raise that
         exception in the calling frame or, when there is no calling frame,
@@ -892,7 +905,8 @@ class PyVM(object):
         handled_exception = self.enter_exception_state(frame)
         self.push_frame(frame)
         offset = 0
-        while True:
+        why = self.raise_thrown(frame)
+        while not why:
             (
                 bytecode_name,
                 byte_code,
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index e2acfb4..ed13c35 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -227,8 +227,12 @@ class PyVMTraced(PyVM):
             self.opc.findlinestarts(frame.f_code, dup_lines=True)
         )
 
-        offset = 0
-        while True:
+        # What is reported when an exception that was thrown into a generator leaves it
+        offset = frame.f_lasti
+        bytecode_name = "YIELD_VALUE"
+        line_number = int_arg = None
+        why = self.raise_thrown(frame)
+        while not why:
             (
                 bytecode_name,
                 byte_code,
-- 
2.43.0


From 7b5d7250af058ca6b9ce16a3b86166e931d41ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 82/86] fix: the print statement separates items by spaces

---
 xpython/byteop/byteop.py | 80 +++++++++++++++++++++++++---------------
 xpython/vm.py            |  6 ++-
 2 files changed, 56 insertions(+), 30 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index f336fa5..c593d3a 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -558,43 +558,65 @@ class ByteOpBase(object):
             raise NameError(f"name '{name}' is not defined")
         return val
 
+    def soft_space(self, to, new):
+        """Sets the "softspace" attribute of the file `to` to `new`. Returns whether
+        it was set before.
+
+        Here is the doc on softspace:
+
+        Boolean that indicates whether a space character needs to be
+        printed before another value when using the print
+        statement. Classes that are trying to simulate a file object
+        should also have a writable softspace attribute, which
+        should be initialized to zero. This will be automatic for
+        most classes implemented in Python (care may be needed for
+        objects that override attribute access); types implemented
+        in C will have to provide a writable softspace attribute.
+
+        Note This attribute is not used to control the print
+        statement, but to allow the implementation of print to keep
+        track of its internal state.
+        """
+        # The files of Python 3 do not have the attribute from the start.
+        try:
+            old = to.softspace
+        except Exception:
+            old = 0
+        try:
+            to.softspace = new
+        except Exception:
+            pass
+        return isinstance(old, int) and old != 0
+
     def print_item(self, item, to=None):
         if to is None:
             to = sys.stdout
 
-        # Python 2ish has file.softspace whereas
-        # Python 3ish doesn't. Here is the doc on softspace:
-
-        # Boolean that indicates whether a space character needs to be
-        # printed before another value when using the print
-        # statement. Classes that are trying to simulate a file object
-        # should also have a writable softspace attribute, which
-        # should be initialized to zero. This will be automatic for
-        # most classes implemented in Python (care may be needed for
-        # objects that override attribute access); types implemented
-        # in C will have to provide a writable softspace attribute.
-
-        # Note This attribute is not used to control the print
-        # statement, but to allow the implementation of print to keep
-        # track of its internal state.
-        if hasattr(to, "softspace") and to.softspace:
-            print(" ", end="", file=to)
-            to.softspace = 0
-        print(item, end="", file=to)
-
-        if hasattr(to, "softspace"):
-            if isinstance(item, str):
-                if (not item) or (not item[-1].isspace()) or (item[-1] == " "):
-                    to.softspace = 1
-            else:
-                to.softspace = 1
+        if self.soft_space(to, 0):
+            to.write(" ")
+        write = to.write
+        write(str(item))
+
+        if (
+            not isinstance(item, str)
+            or not item
+            or not item[-1].isspace()
+            or item[-1] == " "
+        ):
+            self.soft_space(to, 1)
 
     def print_newline(self, to=None):
         if to is None:
             to = sys.stdout
-        print("", file=to)
-        if hasattr(to, "softspace"):
-            to.softspace = 0
+        to.write("\n")
+        self.soft_space(to, 0)
+
+    def flush_line(self):
+        """Ends the line that a print statement with a comma at its end has left
+        open, when the program is over.
+        """
+        if getattr(sys.stdout, "softspace", 0):
+            self.print_newline()
 
     def setup_sys_module(self) -> types.ModuleType:
         """If this has not previously been done, make a *copy* of the
diff --git a/xpython/vm.py b/xpython/vm.py
index 6d0b9eb..e17e49b 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -447,7 +447,11 @@ class PyVM(object):
         """
         frame = self.make_frame(code, f_globals=f_globals, f_locals=f_locals)
         try:
-            self.eval_frame(frame)
+            try:
+                self.eval_frame(frame)
+            finally:
+                if toplevel:
+                    self.byteop.flush_line()
         except PyVMUncaughtException:
             if self.last_traceback is not None:
                 print("Traceback (most recent call last):")
-- 
2.43.0


From 51c251bb5c3b0aeb73a9f7413374878098c49304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 83/86] fix: raise of 2.x takes a value of a subclass, tuples,
 and no value with an instance

---
 xpython/byteop/byteop24.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 7ef2535..d7e372a 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -931,7 +931,11 @@ class ByteOp24(ByteOpBase):
             exctype = self.vm.pop()
 
         # There are a number of forms of "raise", normalize them somewhat.
+        while has_type(exctype, tuple) and exctype:
+            exctype = exctype[0]
         if has_type(exctype, BaseException):
+            if argc > 1 and val is not None:
+                raise TypeError("instance exception may not have a separate value")
             val = exctype
             exctype = type(val)
         elif not (has_type(exctype, type) and issubclass(exctype, BaseException)):
@@ -942,6 +946,9 @@ class ByteOp24(ByteOpBase):
             val = exctype(*val)
         elif not has_type(val, exctype):
             val = exctype(val)
+        else:
+            # It can be of a subclass, which then is what handlers are to match
+            exctype = type(val)
 
         self.vm.last_exception = (exctype, val, tb)
 
-- 
2.43.0


From 54904f1409dd0afa1cffb1ebcbc841364371f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 84/86] fix: handling exceptions asks nothing of their
 metaclasses, and a with statement suppresses those with one

---
 xpython/byteop/byteop.py   |  5 ++++-
 xpython/byteop/byteop24.py | 12 ++++++++++--
 xpython/byteop/byteop25.py |  9 +++++----
 xpython/byteop/byteop31.py |  3 ++-
 xpython/byteop/byteop32.py | 13 +++++++++++--
 xpython/byteop/byteop35.py |  5 +++--
 xpython/byteop/byteop38.py |  7 ++++---
 xpython/byteop/byteop39.py |  2 +-
 xpython/pyobj.py           | 21 +++++++++++++++++----
 xpython/vm.py              |  6 +++---
 10 files changed, 60 insertions(+), 23 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index c593d3a..e6a0d7d 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,12 +14,15 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, Method, copy_module, has_type
+from xpython.pyobj import Function, Method, copy_module, has_type, is_subclass
 from xpython.vm import PyVM
 
 
 log = logging.getLogger(__name__)
 
+# What stands for operands that an instruction does not have
+MISSING = object()
+
 def classic_divide(x, y):
     """The division of Python 2.x, which truncates for integers."""
     if isinstance(x, int) and isinstance(y, int):
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index d7e372a..1fa4605 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -383,7 +383,7 @@ class ByteOp24(ByteOpBase):
         returns, and continues with the outer-next block.
         """
         v = self.vm.pop()
-        if isinstance(v, str):
+        if has_type(v, str):
             why = v
             if why in ("return", "continue"):
                 self.vm.return_value = self.vm.pop()
@@ -573,6 +573,13 @@ class ByteOp24(ByteOpBase):
             return sum((self.exception_classes(m) for m in match), ())
         return (match,) if has_type(match, type) else ()
 
+    def exception_matches(self, cls, classes) -> bool:
+        """Is exception class `cls` one of those that an "except" clause catches?
+
+        Changed in 3.0
+        """
+        return self.COMPARE_OPERATORS[10](cls, classes)
+
     def COMPARE_OP(self, opname: int):
         """Performs a Boolean operation. The operation name can be
         found in cmp_op[opname].
@@ -581,7 +588,8 @@ class ByteOp24(ByteOpBase):
         """
         x, y = self.vm.popn(2)
         if opname == 10:  # exception-match
-            y = self.exception_classes(y)
+            self.vm.push(self.exception_matches(x, self.exception_classes(y)))
+            return
         self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
 
     # Imports
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index fffa144..b5d6b20 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -7,6 +7,7 @@ Note: this is subclassed. Later versions use operations from here.
 import sys
 
 from xpython.byteop.byteop24 import ByteOp24, Version_info, fmt_binary_op, import_fn
+from xpython.pyobj import has_type
 
 
 class ByteOp25(ByteOp24):
@@ -75,10 +76,10 @@ class ByteOp25(ByteOp24):
             # In 2.5 the __exit__ function is TOS.
             exit_func = self.vm.pop()
             u = self.vm.top
-            if u in ("return", "continue"):
-                count = 2
-            elif u is None or isinstance(u, str):
+            if u is None:
                 count = 1
+            elif has_type(u, str):
+                count = 2 if u in ("return", "continue") else 1
             else:
                 count = 3
             self.vm.frame.stack.insert(-count, exit_func)
@@ -87,7 +88,7 @@ class ByteOp25(ByteOp24):
         u = self.vm.top
         if u is None:
             exit_func = self.vm.pop(1)
-        elif isinstance(u, str):
+        elif has_type(u, str):
             if u in ("return", "continue"):
                 exit_func = self.vm.pop(2)
             else:
diff --git a/xpython/byteop/byteop31.py b/xpython/byteop/byteop31.py
index 4200d38..1eda363 100644
--- a/xpython/byteop/byteop31.py
+++ b/xpython/byteop/byteop31.py
@@ -2,6 +2,7 @@
 """Byte Interpreter operations for Python 3.1
 """
 from xpython.byteop.byteop32 import ByteOp32, Version_info
+from xpython.pyobj import has_type
 # from xpython.byteop.byteop26 import ByteOp26
 
 
@@ -34,7 +35,7 @@ class ByteOp31(ByteOp32):
         """
         exit_func = self.vm.pop()
         u = self.vm.top
-        if u is None or isinstance(u, str):
+        if u is None or has_type(u, str):
             exit_func(None, None, None)
         else:
             exit_ret = exit_func(u, self.vm.peek(2), self.vm.peek(3))
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index ffa31ad..e6b4cda 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -3,9 +3,10 @@
 """
 import inspect
 
+from xpython.byteop.byteop import MISSING
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
-from xpython.pyobj import Cell, Function, has_type
+from xpython.pyobj import Cell, Function, has_type, is_subclass
 
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
@@ -58,6 +59,14 @@ class ByteOp32(ByteOp27):
                 )
         return match
 
+    def exception_matches(self, cls, classes) -> bool:
+        """Is exception class `cls` one of those that an "except" clause catches?
+        Unlike in 2.x, a metaclass has no say in this.
+
+        Changed in 3.0
+        """
+        return is_subclass(cls, classes)
+
     def DUP_TOP_TWO(self):
         """Duplicates the reference on top of the stack."""
         a, b = self.vm.popn(2)
@@ -235,7 +244,7 @@ class ByteOp32(ByteOp27):
         u = self.vm.top
         if u is None:
             exit_func = self.vm.pop(1)
-        elif isinstance(u, str):
+        elif has_type(u, str):
             if u in ("return", "continue"):
                 exit_func = self.vm.pop(2)
             else:
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 6e923ed..e104206 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -2,6 +2,7 @@
 """
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop34 import ByteOp34
+from xpython.pyobj import has_type
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
 
 
@@ -155,7 +156,7 @@ class ByteOp35(ByteOp34):
         TOS = self.vm.top
         if TOS is None:
             exit_method = self.vm.pop(1)
-        elif isinstance(TOS, str):
+        elif has_type(TOS, str):
             # FIXME: This code does something funky with pushing "continue"
             # See the comment under CONTINUE_LOOP.
             # jump addresses on the frame stack. As a result, we need to
@@ -193,7 +194,7 @@ class ByteOp35(ByteOp34):
         exception = self.vm.pop()
         if (
             exit_result
-            and type(exception) is type
+            and has_type(exception, type)
             and issubclass(exception, BaseException)
         ):
             # Pop the exception and replace with "silenced".
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index 9eac3d0..b106e1a 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -8,6 +8,7 @@
 """
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop37 import ByteOp37
+from xpython.pyobj import has_type
 
 
 
@@ -80,7 +81,7 @@ class ByteOp38(ByteOp37):
         why = None
         if v is None:
             pass
-        elif isinstance(v, int):
+        elif has_type(v, int):
             self.vm.jump(v)
         elif issubclass(v, BaseException):
             # The "except-handler" block and the exception state that was saved
@@ -134,7 +135,7 @@ class ByteOp38(ByteOp37):
         """
         preserved = self.vm.pop() if preserve_tos else None
         v = self.vm.pop()
-        if v is None or isinstance(v, int):
+        if v is None or has_type(v, int):
             pass
         elif issubclass(v, BaseException):
             self.vm.popn(2)
@@ -154,7 +155,7 @@ class ByteOp38(ByteOp37):
 
         Changed in 3.8: CALL_FINALLY pushes an integer
         """
-        if isinstance(self.vm.top, int):
+        if has_type(self.vm.top, int):
             exit_method = self.vm.pop(1)
             exit_ret = exit_method(None, None, None)
             self.vm.push(None)
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index e3ac280..e613f5b 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -105,7 +105,7 @@ class ByteOp39(ByteOp38):
         TOS1, TOS = self.vm.popn(2)
         TOS = self.exception_classes(TOS)
         # FIXME: not sure what operation should be used to test not "matches".
-        if not issubclass(TOS1, TOS):
+        if not self.exception_matches(TOS1, TOS):
             self.vm.jump(target)
         return
 
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 6beece0..278d3e9 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -37,6 +37,17 @@ def has_type(obj, types_) -> bool:
     return issubclass(type(obj), types_)
 
 
+def is_subclass(cls, classes) -> bool:
+    """
+    Like issubclass(cls, classes), but this does not ask the metaclasses, which the
+    program that we are interpreting may have.
+    """
+    if type(classes) is tuple:
+        return any(is_subclass(cls, base) for base in classes)
+    return any(base is classes for base in class_mro(cls))
+
+
+class_mro = type.__dict__["__mro__"].__get__
 CODE_TYPES = (types.CodeType, CodeBase)
 
 
@@ -49,7 +60,8 @@ def log_repr(obj, depth: int = 4) -> str:
     run any part of the program.
     """
     kind = type(obj)
-    if kind in (list, tuple, set, frozenset, dict):
+    # Not "kind in ...": a class can have an __eq__() and a __hash__(), too.
+    if any(kind is type_ for type_ in (list, tuple, set, frozenset, dict)):
         if depth == 0:
             return "..."
         if kind is dict:
@@ -67,7 +79,7 @@ def log_repr(obj, depth: int = 4) -> str:
     elif kind is Method:
         name = log_function_name(obj.im_func)
         return f"<{'Unbound' if obj.im_self is None else 'Bound'} Method {name}>"
-    elif kind in SIMPLE_REPR_TYPES or issubclass(kind, CODE_TYPES):
+    elif any(kind is type_ for type_ in SIMPLE_REPR_TYPES) or issubclass(kind, CODE_TYPES):
         return repr(obj)
     return object.__repr__(obj)
 
@@ -79,7 +91,8 @@ def log_function_name(obj) -> str:
     """
     if has_type(obj, CODE_TYPES):
         return obj.co_name
-    elif type(obj) in (type, Function, Method) + NATIVE_FUNCTION_TYPES:
+    kinds = (type, Function, Method) + NATIVE_FUNCTION_TYPES
+    if any(type(obj) is type_ for type_ in kinds):
         return str(getattr(obj, "__name__", ""))
     return ""
 
@@ -811,7 +824,7 @@ def thrown_exception(cls, value=None, traceback=None):
     if traceback is not None and not isinstance(traceback, types.TracebackType):
         raise TypeError("throw() third argument must be a traceback object")
     if isinstance(cls, type) and issubclass(cls, BaseException):
-        if isinstance(value, cls):
+        if has_type(value, cls):
             return value
         try:
             if value is None:
diff --git a/xpython/vm.py b/xpython/vm.py
index e17e49b..fb75407 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -710,7 +710,7 @@ class PyVM(object):
             # FIXME: dry code
             if not self.in_exception_processing:
                 # Operands may be gone from the stack here, so don't show those.
-                if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                if self.last_exception[0] is not SystemExit and log.isEnabledFor(
                     logging.INFO
                 ):
                     log.info(
@@ -867,7 +867,7 @@ class PyVM(object):
         report it as uncaught.
         """
         last_exception = self.last_exception
-        if not (last_exception and last_exception[0]):
+        if not last_exception or last_exception[0] is None:
             raise PyVMError("Borked exception recording")
         exc_type, exc_value = last_exception[:2]
         if not self.frame and (
@@ -936,7 +936,7 @@ class PyVM(object):
 
                 if not self.in_exception_processing:
                     # FIXME: DRY code
-                    if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                    if self.last_exception[0] is not SystemExit and log.isEnabledFor(
                         logging.INFO
                     ):
                         log.info(
-- 
2.43.0


From 042fa95f9d074fe51328685ad203b9ef1e442b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 85/86] fix: raise takes None and false causes for what they
 are, and runs nothing of the exception's class

---
 xpython/byteop/byteop.py   | 26 +++++++++++++++++---------
 xpython/byteop/byteop32.py |  2 +-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index e6a0d7d..643478e 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -31,7 +31,7 @@ def classic_divide(x, y):
     calls = [(x, y, "__div__"), (y, x, "__rdiv__")]
     if type_x is type_y:
         del calls[1]
-    elif issubclass(type_y, type_x) and (
+    elif is_subclass(type_y, type_x) and (
         getattr(type_y, "__rdiv__", None) is not getattr(type_x, "__rdiv__", None)
     ):
         # The right operand's class knows better than the one it is derived from.
@@ -467,7 +467,7 @@ class ByteOpBase(object):
         return func
 
     def do_raise(self, exc, cause):
-        if exc is None:  # reraise
+        if exc is MISSING:  # reraise
             if self.version_info[:2] < (3, 11):
                 exc_type = self.vm.handled_exception[0]
                 if exc_type is None:
@@ -482,27 +482,35 @@ class ByteOpBase(object):
 
         elif has_type(exc, type) and issubclass(exc, BaseException):
             # As in `raise ValueError`
-            exc_type = exc
             val = exc()  # Make an instance.
+            if not has_type(val, BaseException):
+                raise TypeError(
+                    "calling an exception class should have returned an instance "
+                    "of BaseException"
+                )
         elif has_type(exc, BaseException):
             # As in `raise ValueError('foo')`
-            exc_type = type(exc)
             val = exc
         else:
             raise TypeError("exceptions must derive from BaseException")
 
         # If you reach this point, you're guaranteed that
-        # val is a valid exception instance and exc_type is its class.
+        # val is a valid exception instance.
         # Now do a similar thing for the cause, if present.
-        if cause:
-            if has_type(cause, type) and issubclass(cause, BaseException):
+        if cause is not MISSING:
+            if cause is None:
+                pass
+            elif has_type(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
             elif not has_type(cause, BaseException):
                 raise TypeError("exception causes must derive from BaseException")
 
-            val.__cause__ = cause
+            # The program can have a __setattr__() and a __getattribute__() which
+            # are not for us.
+            BaseException.__cause__.__set__(val, cause)
 
-        self.vm.last_exception = exc_type, val, val.__traceback__
+        traceback = BaseException.__traceback__.__get__(val)
+        self.vm.last_exception = type(val), val, traceback
         return "exception"
 
     def inplace_operator(self, op):
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index e6b4cda..06882b6 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -283,7 +283,7 @@ class ByteOp32(ByteOp27):
         the traceback as TOS2, the parameter as TOS1, and the
         exception as TOS.
         """
-        cause = exc = None
+        cause = exc = MISSING
         if argc == 2:
             cause = self.vm.pop()
             exc = self.vm.pop()
-- 
2.43.0


From f3056f508b896c99e8fd214b59c01705fe021455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 86/86] fix: the result of __exit__() is tested in 3.5-3.7 only
 if there is an exception

---
 xpython/byteop/byteop35.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index e104206..9cb29f2 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -193,9 +193,9 @@ class ByteOp35(ByteOp34):
         exit_result = self.vm.pop()
         exception = self.vm.pop()
         if (
-            exit_result
-            and has_type(exception, type)
+            has_type(exception, type)
             and issubclass(exception, BaseException)
+            and exit_result
         ):
             # Pop the exception and replace with "silenced".
             self.vm.popn(1)
-- 
2.43.0

