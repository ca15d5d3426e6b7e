From 81fa41b17e5fa21910047efeeb3d0fb1b593e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 01/87] fix: import the CPython 2.7 byteop module from where it
 lives

---
 xpython/byteop/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/__init__.py b/xpython/byteop/__init__.py
index 54e9090..48a8317 100644
--- a/xpython/byteop/__init__.py
+++ b/xpython/byteop/__init__.py
@@ -24,7 +24,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                     byteop = ByteOp27PyPy(vm)
                 else:
-                    from xpython.byteop.opcode_2x.byteop27 import ByteOp27
+                    from xpython.byteop.byteop27 import ByteOp27
 
                     byteop = ByteOp27(vm)
             else:
-- 
2.43.0


From 40bbafb47b35ad24e77531cedbd1dca7e999b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 02/87] fix: PyPy 3.7 and 3.8 CALL_METHOD takes its operands in
 the order LOOKUP_METHOD pushes them

---
 xpython/byteop/byteop37pypy.py | 11 +++++++++++
 xpython/byteop/byteop38pypy.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 1de6785..dba89a5 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -48,6 +48,17 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         self.is_pypy = True
         self.version = "3.7.12 (x-python, Oct 27 1955, 00:00:00)\n[PyPy with x-python]"
 
+    def CALL_METHOD(self, argc: int):
+        """
+        Calls the method pushed by LOOKUP_METHOD. argc is the number of
+        positional arguments. Below these are the cached method slot, which
+        is not used here, and then the method to call.
+        """
+        pos_args = self.vm.popn(argc)
+        self.vm.pop()  # cached method slot is not used here.
+        func = self.vm.pop()
+        return self.call_function_with_args_resolved(func, pos_args, {})
+
     def CALL_METHOD_KW(self, argc: int):
         """
         argc has a count of the number of keyword parameters.
diff --git a/xpython/byteop/byteop38pypy.py b/xpython/byteop/byteop38pypy.py
index 8af168d..5ec9f0a 100644
--- a/xpython/byteop/byteop38pypy.py
+++ b/xpython/byteop/byteop38pypy.py
@@ -22,4 +22,5 @@ class ByteOp38PyPy(ByteOp38, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
-- 
2.43.0


From 0ac1c17dfbd3251a4f3a1b35ae1560dc6f13bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 03/87] fix: scale 3.10 absolute jump targets when the version
 has two components

---
 xpython/vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 2f699ec..11c6e82 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -597,7 +597,7 @@ class PyVM(object):
                     # We probably could set fallthough, since many (all?)
                     # of these are unconditional, but we'll make the jump do
                     # the work of setting.
-                    if self.version >= (3, 10, 0):
+                    if self.version >= (3, 10):
                         int_arg += int_arg
                     arg = int_arg
                 elif byte_code in self.opc.LOCAL_OPS:
-- 
2.43.0


From 15e16708c76e3ea5a53cf75baf0d68db3e06eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:16 +0000
Subject: [PATCH 04/87] fix: propagate an exception out of a called frame into
 its caller

---
 xpython/vm.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 11c6e82..c7f6fea 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -6,7 +6,6 @@ import linecache
 import logging
 import os
 import sys
-from types import TracebackType
 from typing import Any, List
 
 from xdis import (
@@ -24,7 +23,7 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Block, Frame, traceback_from_frame
 
 log = logging.getLogger(__name__)
 
@@ -893,14 +892,9 @@ class PyVM(object):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            raise PyVMUncaughtException.from_tuple(last_exception)
-                        else:
-                            raise
-                else:
-                    raise
+                if not self.frame:
+                    raise PyVMUncaughtException.from_tuple(last_exception)
+                raise last_exception[1]
             else:
                 raise PyVMError("Borked exception recording")
             # if self.exception and .... ?
-- 
2.43.0


From bf5040217a85085ab817d7d6144f9b93eeb69ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:16 +0000
Subject: [PATCH 05/87] fix: report an uncaught exception instead of failing to
 unpack it

---
 xpython/vm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index c7f6fea..4fcac08 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -442,9 +442,7 @@ class PyVM(object):
                 print("Traceback (most recent call last):")
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
-                print(
-                    f"{self.last_exception[0].__name__}:", *self.last_exception[1]
-                )
+                print(f"{self.last_exception[0].__name__}: {self.last_exception[1]}")
             return 1
 
         except Exception:
-- 
2.43.0


From 448b108ff46bdc16880bd77562c2088e0f9418c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:14 +0000
Subject: [PATCH 06/87] fix: propagate an exception with its value out of a
 traced frame

---
 xpython/vmtrace.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index a2b3262..3fcab8f 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,14 +3,13 @@ This can be used in a debugger or profiler.
 """
 
 import logging
-from types import TracebackType
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
 
-from xpython.pyobj import Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Frame, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
 
 log = logging.getLogger(__name__)
@@ -352,17 +351,9 @@ class PyVMTraced(PyVM):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            self.last_exception = PyVMUncaughtException.from_tuple(
-                                last_exception
-                            )
-                        raise self.last_exception
-                    else:
-                        raise last_exception[0]
-                    pass
-                pass
+                if not self.frame:
+                    raise PyVMUncaughtException.from_tuple(last_exception)
+                raise last_exception[1]
             else:
                 raise PyVMError("Borked exception recording")
             # if self.exception and .... ?
-- 
2.43.0


From e38d404765db3a35910f0b11b81447897de23484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 07/87] fix: run 3.8 to 3.10 finally and with blocks that
 exceptions, return, break or continue leave

3.8 CALL_FINALLY re-ran itself and END_FINALLY returned from the frame; END_FINALLY
and POP_FINALLY with an exception, 3.9 RERAISE and WITH_EXCEPT_START raised errors of
their own.
---
 xpython/byteop/byteop38.py | 53 ++++++++++++++++++++++++--------------
 xpython/byteop/byteop39.py | 23 ++++++++++++++---
 2 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index ffe32ed..9843701 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -6,6 +6,8 @@
 # See the documentation for the full license.
 """Bytecode Interpreter operations for Python 3.8
 """
+from xdis import next_offset
+
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop37 import ByteOp37
 
@@ -78,16 +80,13 @@ class ByteOp38(ByteOp37):
             why = None
         elif isinstance(v, int):
             self.vm.jump(v)
-            why = "return"
+            why = None
         elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
             exctype = v
             val = self.vm.pop()
             tb = self.vm.pop()
             self.vm.last_exception = (exctype, val, tb)
-
-            raise self.vm.PyVMError("END_FINALLY not finished yet")
-            # FIXME: pop 3 more values
+            # Unwinding the exception handler block pops the other 3 values.
             why = "reraise"
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused END_FINALLY")
@@ -98,8 +97,9 @@ class ByteOp38(ByteOp37):
         increments bytecode counter by delta. Used for calling the
         "finally" block as a "subroutine".
         """
-        # Is it f_lasti or the one after that
-        self.vm.push(self.vm.frame.f_lasti)
+        opc = self.vm.opc
+        f_lasti = self.vm.frame.f_lasti
+        self.vm.push(next_offset(opc.CALL_FINALLY, opc, f_lasti))
         self.vm.jump(delta)
 
     def POP_FINALLY(self, preserve_tos: int):
@@ -119,22 +119,37 @@ class ByteOp38(ByteOp37):
         continue and return in the "finally" block.
 
         """
+        res = self.vm.pop() if preserve_tos else None
         v = self.vm.pop()
-        if v is None:
-            why = None
+        if v is None or isinstance(v, int):
+            pass
         elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
-            val = self.vm.pop()
-            tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            # FIXME: pop 3 more values
-            why = "reraise"
-            raise self.vm.PyVMError("POP_FINALLY not finished yet")
+            self.vm.popn(2)
+            block = self.vm.pop_block()
+            assert block.type == "except-handler"
+            self.vm.unwind_block(block)
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused POP_FINALLY")
-        return why
+        if preserve_tos:
+            self.vm.push(res)
+
+    # Changed from 3.5: when the exception is silenced, the exception handler
+    # block is removed here instead of in END_FINALLY.
+    def WITH_CLEANUP_FINISH(self):
+        """Pops exception type and result of "exit" function call from the stack.
+
+        If the stack represents an exception, and the function call
+        returns a true value, the exception handler block is removed
+        and the exception is replaced with what BEGIN_FINALLY pushes,
+        to prevent END_FINALLY from re-raising the exception.
+        """
+        exit_result = self.vm.pop()
+        exception = self.vm.pop()
+        if exception is not None and exit_result:
+            block = self.vm.pop_block()
+            assert block.type == "except-handler"
+            self.vm.unwind_block(block)
+            self.vm.push(None)
 
     # Changed from 2.4: Map value is TOS and map key is TOS1. Before,
     # those were reversed.
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index aa92bde..8d65a43 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -19,6 +19,7 @@ del ByteOp35.BUILD_MAP_UNPACK
 del ByteOp35.BUILD_SET_UNPACK
 del ByteOp35.BUILD_TUPLE_UNPACK
 del ByteOp35.WITH_CLEANUP_FINISH
+del ByteOp38.WITH_CLEANUP_FINISH
 del ByteOp35.WITH_CLEANUP_START
 del ByteOp36.BUILD_MAP_UNPACK_WITH_CALL
 del ByteOp38.CALL_FINALLY
@@ -48,12 +49,18 @@ class ByteOp39(ByteOp38):
     #   already been performed in parse_byte_and_args().
     ##############################################################################
 
-    def RERAISE(self, oparg: int) -> str:
+    def RERAISE(self, oparg: int = 0) -> str:
         """Re-raises the exception currently on top of the stack.  If
         oparg is non-zero, pops an additional value from the stack
         which is used to set f_lasti of the current frame.
 
+        3.9 has no oparg.
         """
+        if self.version_info[:2] < (3, 11):
+            tb, val, exctype = self.vm.popn(3)
+            self.vm.last_exception = (exctype, val, tb)
+            return "reraise"
+
         # An exception was already set up to set: self.vm.last_exception,
         # self.vm.last_type, self.vm.last_value, self.vm.last_traceback.
         # All we need to do here is note an exception return.
@@ -62,9 +69,17 @@ class ByteOp39(ByteOp38):
         return "exception"
 
     def WITH_EXCEPT_START(self) -> None:
-        # FIXME
-        raise RuntimeError("WITH_EXCEPT_START not implemented yet")
-        pass
+        """Calls the function in position 7 on the stack with the top
+        three items on the stack as arguments. Used to implement the
+        call context_manager.__exit__(*exc_info()) when an exception
+        has occurred in a with statement.
+        """
+        if self.version_info[:2] >= (3, 11):
+            # FIXME
+            raise RuntimeError("WITH_EXCEPT_START not implemented yet")
+        tb, val, exctype = (self.vm.peek(i) for i in (3, 2, 1))
+        exit_method = self.vm.peek(7)
+        self.vm.push(exit_method(exctype, val, tb))
 
 
     def LOAD_ASSERTION_ERROR(self) -> None:
-- 
2.43.0


From 3caa35a74d34a909a64d7d9f5ad1c30806368372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 08/87] fix: propagate the exception that was raised, not the
 one whose handler it leaves

An exception raised inside an except or with handler was replaced by the
exception that handler was handling, and a bare raise after a nested handler
re-raised the nested handler's exception.
---
 xpython/byteop/byteop.py   |  4 +++-
 xpython/byteop/byteop24.py |  6 ------
 xpython/byteop/byteop35.py |  1 +
 xpython/vm.py              | 19 +++++++++++++++----
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 70b27ba..57678df 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -398,9 +398,11 @@ class ByteOpBase(object):
 
     def do_raise(self, exc, cause):
         if exc is None:  # reraise
+            if self.version_info[:2] < (3, 11):
+                self.vm.last_exception = self.vm.handled_exception
             exc_type, val, _ = self.vm.last_exception
             if exc_type is None:
-                return "exception"  # error
+                raise RuntimeError("No active exception to reraise")
             else:
                 return "reraise"
 
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 6c4b1e2..45b8e5b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -390,12 +390,6 @@ class ByteOp24(ByteOpBase):
             val = self.vm.pop()
             tb = self.vm.pop()
             self.vm.last_exception = (exctype, val, tb)
-            if self.version_info[:2] >= (3, 5):
-                block = self.vm.top_block()
-                while len(self.vm.frame.stack) > block.level:
-                    self.vm.pop()
-                self.vm.push(tb, val, exctype)
-
             why = "reraise"
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused END_FINALLY")
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index e6af99f..29f244c 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -169,6 +169,7 @@ class ByteOp35(ByteOp34):
             fourth, third, second = self.vm.popn(3)
             tp, exc, tb = self.vm.popn(3)
             exit_method = self.vm.pop()
+            self.vm.push(tp, exc, tb)
             self.vm.push(None)
             self.vm.push(fourth, third, second)
             block = self.vm.pop_block()
diff --git a/xpython/vm.py b/xpython/vm.py
index 4fcac08..5ff57c3 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -164,6 +164,10 @@ class PyVM(object):
         # Like sys.exc_info() tuple
         self.last_exception = None
 
+        # The exception whose handler is running, before 3.11. This is what
+        # leaving a nested exception handler goes back to.
+        self.handled_exception = (None, None, None)
+
         # Sometimes we need a native function (e.g. for method lookup), but
         # most of the time we want a VM function defined in pyobj.
         # This maps between the two.
@@ -484,7 +488,7 @@ class PyVM(object):
         # sys.last_exception. 3.11+ has a already set this.
         if block.type == "except-handler" and self.version < (3, 11):
             tb, value, exctype = self.popn(3)
-            self.last_exception = exctype, value, tb
+            self.last_exception = self.handled_exception = exctype, value, tb
 
     def parse_byte_and_args(self, byte_code, replay=False):
         """Parse 1 - 3 bytes of bytecode into
@@ -724,7 +728,13 @@ class PyVM(object):
             block.type in ("except-handler", "setup-except311") and why == "silenced"
         ):
             self.pop_block()
+            raised = self.last_exception
             self.unwind_block(block)
+            if why == "exception":
+                # Unwinding an exception handler restores the exception that
+                # was handled before it, but what propagates is the exception
+                # that was raised.
+                self.last_exception = raised
 
         if block.type == "loop" and why == "break":
             why = None
@@ -753,9 +763,11 @@ class PyVM(object):
         else:
             if why == "exception" and block.type in ["setup-except", "finally"]:
                 self.push_block("except-handler")
-                exc_type, exc_value, exc_traceback = self.last_exception
-                # FIXME: start here - is this right for 2.7?
+                # Save the exception to restore when the handler is done.
+                exc_type, exc_value, exc_traceback = self.handled_exception
                 self.push(exc_traceback, exc_value, exc_type)
+                exc_type, exc_value, exc_traceback = self.last_exception
+                self.handled_exception = self.last_exception
                 why = None
 
                 # Make the raw exception data available to the
@@ -764,7 +776,6 @@ class PyVM(object):
 
                 # PyErr_NormalizeException goes here
                 self.jump(block.handler)
-                self.last_traceback = exc_traceback
                 self.push(exc_traceback, exc_value, exc_type)
                 return why
 
-- 
2.43.0


From bc86a27d0ce8fc535fc96a794f2f1e781639443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 09/87] fix: give a 2.x raise of a class an instance of that
 class

---
 xpython/byteop/byteop24.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 45b8e5b..1958303 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -836,26 +836,27 @@ class ByteOp24(ByteOpBase):
             exctype, val, tb = self.vm.last_exception
         elif argc == 1:
             exctype = self.vm.pop()
-            val = AssertionError()
+            val = None
         elif argc == 2:
             val = self.vm.pop()
-            # Investigate: right now we see this *only* in 2.6.
-            # Can it happen in other bytecode versions?
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
             exctype = self.vm.pop()
         elif argc == 3:
             tb = self.vm.pop()
             val = self.vm.pop()
-            # See comment above
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
             exctype = self.vm.pop()
 
         # There are a number of forms of "raise", normalize them somewhat.
         if isinstance(exctype, BaseException):
             val = exctype
             exctype = type(val)
+        elif isinstance(exctype, type) and not isinstance(val, exctype):
+            # As PyErr_NormalizeException() does.
+            if val is None:
+                val = exctype()
+            elif isinstance(val, tuple):
+                val = exctype(*val)
+            else:
+                val = exctype(val)
 
         self.vm.last_exception = (exctype, val, tb)
 
-- 
2.43.0


From 8f52297cf97d6b3fba43926f2a2e2f343ade8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 10/87] fix: give super() the real super object, found through
 the frame's own class and first argument

---
 xpython/builtins.py | 62 ++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 46 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 4785643..39e20e2 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -112,55 +112,25 @@ def build_class(opc, func, name, *bases, **kwds):
     return cls
 
 
-# FIXME: change to return a true Proxy object.
-def builtin_super(self: Any, typ=None, obj=None):
+def builtin_super(frame: Any, *args):
     """
-    super() but first argument is filled in via interpreter
+    super() but when it has no arguments these are filled in via interpreter:
+    the class comes from the frame's __class__ cell and the object is the first
+    parameter of the frame's code.
     """
-    cells = self.cells
-    if hasattr(cells, "__class__"):
-        cell = cells["__class__"]
-    elif hasattr(cells, "__classcell__"):
-        cell = cells["__classcell__"]
-
-    start_class = cell.get()
-    return WrappedSuperClass(start_class, typ, obj)
-
-    return None
-
-
-class WrappedSuperClass(object):
-    """
-    builtin "super" object return type. This is a
-    proxy object that delegates method calls to a parent or sibling class of ``type``.
-    See https://docs.python.org/3.7/library/functions.html#super
-    """
-
-    def __init__(self, start_class, typ, obj: Any):
-        if obj is not None:
-            assert isinstance(obj, typ)
-
-        self.type_given = typ is not None
-        if self.type_given:
-            start_class = typ
-        self.start_class = start_class
-        self.superclass = start_class.__mro__[1]
-        self.__orig_init__ = self.superclass.__init__
-        self.__init__ = self.init
-        self.object = obj
-        self.type = typ
-
-    def __repr__(self):
-        if self.type_given is not None and self.object is None:
-            obj_str = "NULL"
-        elif self.object is not None:
-            obj_str = f"<{self.object.__class__.__name__} object>"
+    if not args:
+        code = frame.f_code
+        if not code.co_argcount:
+            raise RuntimeError("super(): no arguments")
+        if not frame.cells or "__class__" not in frame.cells:
+            raise RuntimeError("super(): __class__ cell not found")
+        name = code.co_varnames[0]
+        if name in code.co_cellvars:
+            obj = frame.cells[name].get()
         else:
-            obj_str = repr(self.type)
-        return f"<super: <class '{self.start_class.__name__}'>, {obj_str}>"
-
-    def init(self, *args, **kwargs):
-        return self.__orig_init__(self, *args, **kwargs)
+            obj = frame.f_locals[name]
+        args = (frame.cells["__class__"].get(), obj)
+    return super(*args)
 
 
 # From Pypy 3.6
-- 
2.43.0


From 48118d18d2f5045d70b3286933aa2e80854e1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 11/87] fix: make 2.4 and 2.5 closures share their cells
 instead of copying values

---
 xpython/byteop/byteop24.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 1958303..3766e01 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -17,7 +17,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.pyobj import Cell, Function, Traceback
+from xpython.pyobj import Function, Traceback
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -787,10 +787,14 @@ class ByteOp24(ByteOpBase):
         Changed in 2.6
         """
         code = self.vm.pop()
+        if self.version_info[:2] > (2, 4):
+            # From 2.5 on, the cells are in a tuple.
+            closure = self.vm.pop()
+        else:
+            closure = tuple(self.vm.popn(len(code.co_freevars)))
         defaults = self.vm.popn(argc)
         globs = self.vm.frame.f_globals
 
-        closure = tuple([Cell(self.lookup_name(var)) for var in code.co_freevars])
         fn = Function(
             name=None,
             code=code,
-- 
2.43.0


From 0367a4781c9ec20bda986198e3e51696349f7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 12/87] fix: leave the caller's cells alone when a frame makes
 its own

---
 xpython/pyobj.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d1189a9..67df450 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -438,12 +438,10 @@ class Frame(object):
 
         if f_code.co_cellvars:
             self.cells = {}
-            if not f_back.cells:
-                f_back.cells = {}
             for var in f_code.co_cellvars:
                 # Make a cell for the variable in our locals, or None.
                 cell = Cell(self.f_locals.get(var))
-                f_back.cells[var] = self.cells[var] = cell
+                self.cells[var] = cell
         else:
             self.cells = None
 
-- 
2.43.0


From 715e9f1e06dad5a6bc1844be3c3d093d99679a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 13/87] fix: a generator that returned or raised is exhausted,
 and a 2.4 yield has no value

---
 xpython/pyobj.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 67df450..cb4e3a3 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -562,12 +562,20 @@ class Generator(object):
         return self.send(None)
 
     def send(self, value=None):
+        if self.finished:
+            raise StopIteration
         if not self.started and value is not None:
             raise TypeError("Can't send non-None value to a just-started generator")
-        self.gi_frame.stack.append(value)
+        if self.vm.version >= (2, 5):
+            # Before 2.5, "yield" is a statement and has no value.
+            self.gi_frame.stack.append(value)
         self.started = True
         self.running = True
-        val = self.vm.resume_frame(self.gi_frame)
+        try:
+            val = self.vm.resume_frame(self.gi_frame)
+        except BaseException:
+            self.finished = True
+            raise
         if self.finished:
             self.running = False
             raise StopIteration(val)
-- 
2.43.0


From b380c664f5cb8d4c19426d7b12ada1965774bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 14/87] fix: read the 3.1 to 3.5 function defaults and
 annotations in the order they are pushed

---
 xpython/byteop/byteop32.py | 69 ++++++++++++++------------------------
 xpython/byteop/byteop33.py | 46 +++----------------------
 xpython/byteop/byteop34.py | 38 ++++++---------------
 3 files changed, 40 insertions(+), 113 deletions(-)

diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 7f1dba7..ba3069e 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -75,6 +75,28 @@ class ByteOp32(ByteOp27):
         later called by CALL_FUNCTION to construct a class."""
         self.vm.push(__build_class__)
 
+    def pop_annotations(self, annotate_count: int) -> dict:
+        """
+        Pops the annotations of a function that is being made. TOS is a tuple of
+        the annotated names; below that are their annotations.
+        """
+        if not annotate_count:
+            return {}
+        names = self.vm.pop()
+        return dict(zip(names, self.vm.popn(annotate_count)))
+
+    def pop_defaults(self, default_count: int, kw_default_count: int) -> tuple:
+        """
+        Pops the positional and the keyword-only defaults of a function that is
+        being made. Before 3.4 the positional ones are on top.
+        """
+        defaults = tuple(self.vm.popn(default_count))
+        return defaults, self.pop_kwdefaults(kw_default_count)
+
+    def pop_kwdefaults(self, kw_default_count: int) -> dict:
+        pairs = self.vm.popn(2 * kw_default_count)
+        return dict(pairs[i : i + 2] for i in range(0, len(pairs), 2))
+
     def MAKE_CLOSURE(self, argc: int):
         """
         Creates a new function object, sets its ``__closure__`` slot, and
@@ -87,27 +109,8 @@ class ByteOp32(ByteOp27):
         default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
         closure, code = self.vm.popn(2)
 
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        annotations = self.pop_annotations(annotate_count)
+        defaults, kwdefaults = self.pop_defaults(default_count, kw_default_count)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
@@ -150,28 +153,8 @@ class ByteOp32(ByteOp27):
         code = self.vm.pop()
         name = code.co_name
 
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_names)
-            assert n == len(annotate_objects)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
+        annotations = self.pop_annotations(annotate_count)
+        defaults, kwdefaults = self.pop_defaults(default_count, kw_default_count)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 21d8770..365788c 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -27,27 +27,8 @@ class ByteOp33(ByteOp32):
         code, name = self.vm.popn(2)
         closure = self.vm.pop()
 
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        annotations = self.pop_annotations(annotate_count)
+        defaults, kwdefaults = self.pop_defaults(default_count, kw_default_count)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
@@ -90,27 +71,8 @@ class ByteOp33(ByteOp32):
         code = self.vm.pop()
         name = code.co_name
 
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_objects = self.vm.popn(annotate_count)
-            n = len(annotate_objects)
-            assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        annotations = self.pop_annotations(annotate_count)
+        defaults, kwdefaults = self.pop_defaults(default_count, kw_default_count)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index a6db178..6c19540 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -46,6 +46,14 @@ class ByteOp34(ByteOp33):
     # our own kind of xpython.pyobj.Function object.
     #
 
+    def pop_defaults(self, default_count: int, kw_default_count: int) -> tuple:
+        """
+        Pops the positional and the keyword-only defaults of a function that is
+        being made. From 3.4 on the keyword-only ones are on top.
+        """
+        kwdefaults = self.pop_kwdefaults(kw_default_count)
+        return tuple(self.vm.popn(default_count)), kwdefaults
+
     # Python 3.3 docs describe this but seem to follow pre-3.3
     # conventions (which go back to Python 2.x days).
     def MAKE_FUNCTION(self, argc: int):
@@ -67,34 +75,8 @@ class ByteOp34(ByteOp33):
 
         name = self.vm.pop()
         code = self.vm.pop()
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_objects)
-            # We can annotate a function return value, but
-            # that does is not a parameter object and not
-            # listed in annotate_objects
-            if annotate_names[-1] == "return":
-                assert n == len(annotate_names) - 1
-            else:
-                assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        annotations = self.pop_annotations(annotate_count)
+        defaults, kwdefaults = self.pop_defaults(default_count, kw_default_count)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
-- 
2.43.0


From bd7e73b3a3420c51805b9e474df436d653a4c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 15/87] fix: call a 3.5 function that has keywords, an iterable
 and a mapping

---
 xpython/byteop/byteop35.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 29f244c..3805c19 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -298,3 +298,26 @@ class ByteOp35(ByteOp34):
         self.call_function_with_args_resolved(
             func, pos_args=pos_args, named_args=keyword_args
         )
+
+    def CALL_FUNCTION_VAR_KW(self, argc: int):
+        """Calls a callable object with an iterable of additional positional
+        arguments and a mapping of additional keyword arguments. *argc* is as in
+        `CALL_FUNCTION`.
+
+        Changed in version 3.5: the iterable object is below the keyword
+        arguments; see `CALL_FUNCTION_VAR`.
+        """
+        mapping = self.vm.pop()
+        keyword_args = {}
+        len_kw, len_pos = divmod(argc, 256)
+        for i in range(len_kw):
+            key, val = self.vm.popn(2)
+            keyword_args[key] = val
+        keyword_args.update(mapping)
+        var_args = self.vm.pop()
+        pos_args = self.vm.popn(len_pos)
+        pos_args.extend(var_args)
+        func = self.vm.pop()
+        self.call_function_with_args_resolved(
+            func, pos_args=pos_args, named_args=keyword_args
+        )
-- 
2.43.0


From 98ab96394e8149b55a1373835c0516871c5157e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 16/87] fix: pass a class statement's keywords on to the
 metaclass

---
 xpython/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 39e20e2..425f3d9 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -95,7 +95,7 @@ def build_class(opc, func, name, *bases, **kwds):
         namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
 
     try:
-        cls = metaclass(name, bases, namespace)
+        cls = metaclass(name, bases, namespace, **kwds)
     except TypeError:
         # For mysterious reasons the above can raise a:
         #  __init__() takes *n* positional arguments but *n+1* were given.
-- 
2.43.0


From 5f5ca102764dcf566898e2318b41988dc499cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 17/87] fix: unpack any iterable, and only one that has as many
 values as there are targets

---
 xpython/byteop/byteop24.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 3766e01..15bf2f5 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -9,6 +9,7 @@ import operator
 import sys
 from collections import namedtuple
 from copy import copy
+from itertools import islice
 from typing import Any, Optional
 
 from xpython.byteop.byteop import (
@@ -432,8 +433,15 @@ class ByteOp24(ByteOpBase):
         stack right-to-left.
         """
         seq = self.vm.pop()
-        for x in reversed(seq):
-            self.vm.push(x)
+        # One value more than we need is enough to see that there are too many.
+        values = list(islice(seq, count + 1))
+        if len(values) > count:
+            raise ValueError(f"too many values to unpack (expected {count})")
+        if len(values) < count:
+            raise ValueError(
+                f"not enough values to unpack (expected {count}, got {len(values)})"
+            )
+        self.vm.push(*reversed(values))
 
     def DUP_TOPX(self, count: int):
         """
-- 
2.43.0


From 90aedf443ad0636f1adc56c9cb5d728f97abd7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 18/87] fix: a method call on an object without that attribute
 is an AttributeError

---
 xpython/byteop/byteop37.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 72888a0..75f68ca 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -80,16 +80,11 @@ class ByteOp37(ByteOp36):
         """
         TOS = self.vm.pop()
 
-        if hasattr(TOS, name):
-            # FIXME: Figure out how to get an unbound method and self from a callable function.
-            # Until then, we need to push NULL and the callable (the default slow path).
-            function = getattr(TOS, name)
-            if not callable(function):
-                raise self.vm.PyVMError(f"LOAD_METHOD {name} off of {TOS} of type {type(TOS)} is not callable.")
-            self.vm.push(NULL)
-            self.vm.push(function)
-        else:
-            raise self.vm.PyVMError(f"LOAD_METHOD can't find {name} off of {TOS} of type {type(TOS)}")
+        # FIXME: Figure out how to get an unbound method and self from a callable function.
+        # Until then, we need to push NULL and the callable (the default slow path).
+        function = getattr(TOS, name)
+        self.vm.push(NULL)
+        self.vm.push(function)
 
     def CALL_METHOD(self, count):
         """Calls a method. argc is the number of positional
-- 
2.43.0


From a10fbd71f5c7333daa1e5cc92171ab064e21daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 19/87] fix: deleting a name that is not bound is a NameError

---
 xpython/byteop/byteop24.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 15bf2f5..655e125 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -421,12 +421,18 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_GLOBAL(self, name):
         """Implements del name, where name in global."""
-        del self.vm.frame.f_globals[name]
+        try:
+            del self.vm.frame.f_globals[name]
+        except KeyError:
+            raise NameError(f"name '{name}' is not defined") from None
 
     def DELETE_NAME(self, name):
         """Implements del name, where name is the index into co_names
         attribute of the code object."""
-        del self.vm.frame.f_locals[name]
+        try:
+            del self.vm.frame.f_locals[name]
+        except KeyError:
+            raise NameError(f"name '{name}' is not defined") from None
 
     def UNPACK_SEQUENCE(self, count):
         """Unpacks TOS into count individual values, which are put onto the
@@ -724,7 +730,12 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_FAST(self, var_num):
         """Deletes local co_varnames[var_num]."""
-        del self.vm.frame.f_locals[var_num]
+        try:
+            del self.vm.frame.f_locals[var_num]
+        except KeyError:
+            raise UnboundLocalError(
+                f"local variable '{var_num}' referenced before assignment"
+            ) from None
 
     def LOAD_CLOSURE(self, i):
         """Pushes a reference to the cell contained in slot i of the
-- 
2.43.0


From d9d1e1b47f3d21274ecbbc512978cc5899796aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 20/87] fix: store the result of an in-place matrix
 multiplication

---
 xpython/byteop/byteop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 57678df..543ff4f 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -467,7 +467,7 @@ class ByteOpBase(object):
             x |= y
         # 3.5 on
         elif op == "MATRIX_MULTIPLY":
-            operator.imatmul(x, y)
+            x @= y
         else:  # pragma: no cover
             raise self.PyVMError(f"Unknown in-place operator: {op!r}")
         self.vm.push(x)
-- 
2.43.0


From 75e05491871d439e9a3be1ef80750c3a3e98acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 21/87] fix: call a class method, whose first argument is no
 instance of the class

---
 xpython/byteop/byteop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 543ff4f..fbfc83a 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -151,15 +151,15 @@ class ByteOpBase(object):
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
-            # The first parameter must be the correct type.
-            if not isinstance(pos_args[0], func.im_class):
+            # The first parameter of an unbound method must be the correct type.
+            elif not pos_args or not isinstance(pos_args[0], func.im_class):
                 raise TypeError(
                     "unbound method %s() must be called with %s instance "
                     "as first argument (got %s instance instead)"
                     % (
                         func.im_func.func_name,
                         func.im_class.__name__,
-                        type(pos_args[0]).__name__,
+                        type(pos_args[0]).__name__ if pos_args else "nothing",
                     )
                 )
             func = func.im_func
-- 
2.43.0


From 320b0d99940522750e0d84b302946cdbf8b22c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 22/87] fix: raising something that is not an exception is a
 TypeError; raise from None has no cause

---
 xpython/byteop/byteop.py   | 14 +++++++-------
 xpython/byteop/byteop24.py |  5 +++++
 xpython/byteop/byteop32.py |  2 +-
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index fbfc83a..ebf2bf7 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -396,7 +396,7 @@ class ByteOpBase(object):
             self.vm.fn2native[native_func] = func
         return func
 
-    def do_raise(self, exc, cause):
+    def do_raise(self, exc, cause, has_cause=False):
         if exc is None:  # reraise
             if self.version_info[:2] < (3, 11):
                 self.vm.last_exception = self.vm.handled_exception
@@ -406,7 +406,7 @@ class ByteOpBase(object):
             else:
                 return "reraise"
 
-        elif type(exc) is type:
+        elif isinstance(exc, type) and issubclass(exc, BaseException):
             # As in `raise ValueError`
             exc_type = exc
             val = exc()  # Make an instance.
@@ -415,16 +415,16 @@ class ByteOpBase(object):
             exc_type = type(exc)
             val = exc
         else:
-            return "exception"  # error
+            raise TypeError("exceptions must derive from BaseException")
 
         # If you reach this point, you're guaranteed that
         # val is a valid exception instance and exc_type is its class.
         # Now do a similar thing for the cause, if present.
-        if cause:
-            if type(cause) is type:
+        if has_cause:
+            if isinstance(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
-            elif not isinstance(cause, BaseException):
-                return "exception"  # error
+            elif cause is not None and not isinstance(cause, BaseException):
+                raise TypeError("exception causes must derive from BaseException")
 
             val.__cause__ = cause
 
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 655e125..70ed082 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -880,6 +880,11 @@ class ByteOp24(ByteOpBase):
                 val = exctype(*val)
             else:
                 val = exctype(val)
+        elif not isinstance(exctype, type):
+            raise TypeError(
+                "exceptions must be classes or instances, not "
+                + type(exctype).__name__
+            )
 
         self.vm.last_exception = (exctype, val, tb)
 
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index ba3069e..30fdf3a 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -247,7 +247,7 @@ class ByteOp32(ByteOp27):
             exc = self.vm.pop()
         elif argc == 1:
             exc = self.vm.pop()
-        return self.do_raise(exc, cause)
+        return self.do_raise(exc, cause, has_cause=argc == 2)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 129e587e61351ed88bbde5bbf81a7812c8a60f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 23/87] fix: a cell whose variable is not bound is empty, and a
 class body looks in its locals first

---
 xpython/byteop/byteop24.py  | 13 ++++++++++++-
 xpython/byteop/byteop311.py |  7 ++++---
 xpython/byteop/byteop32.py  |  6 ++++--
 xpython/byteop/byteop34.py  |  5 ++++-
 xpython/pyobj.py            | 12 +++++++++---
 5 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 70ed082..971a846 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -751,7 +751,18 @@ class ByteOp24(ByteOpBase):
         storage. Pushes a reference to the object the cell contains on the
         stack.
         """
-        self.vm.push(self.vm.frame.cells[name].get())
+        frame = self.vm.frame
+        cell = frame.cells[name]
+        if cell.is_empty():
+            if name in frame.f_code.co_cellvars:
+                raise UnboundLocalError(
+                    f"local variable '{name}' referenced before assignment"
+                )
+            raise NameError(
+                f"free variable '{name}' referenced before assignment"
+                " in enclosing scope"
+            )
+        self.vm.push(cell.get())
 
     def STORE_DEREF(self, name):
         """Stores TOS into the cell contained in slot i of the cell
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index ca98958..f248f0e 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -22,7 +22,7 @@ from xpython.byteop.byteop36 import (
 from xpython.builtins import build_class, builtin_super
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310
-from xpython.pyobj import Function
+from xpython.pyobj import Cell, Function
 
 log = logging.getLogger(__name__)
 
@@ -345,7 +345,8 @@ class ByteOp311(ByteOp310):
         localsplus = co.co_freevars + co.co_cellvars
         for i in range(argc):
             name = localsplus[i]
-            frame.f_locals[name] = frame.cells[name].get()
+            if not frame.cells[name].is_empty():
+                frame.f_locals[name] = frame.cells[name].get()
         return
 
     def KW_NAMES(self, names: Tuple[str]):
@@ -375,7 +376,7 @@ class ByteOp311(ByteOp310):
         #     goto resume_with_error;
         # }
         # SETLOCAL(oparg, cell);
-        self.vm.frame.cells[name].set(self.vm.frame.f_locals.get(name, None))
+        self.vm.frame.cells[name].set(self.vm.frame.f_locals.get(name, Cell.EMPTY))
         return
 
     # Changed in 3.11...
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 30fdf3a..7325610 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -6,7 +6,7 @@ import inspect
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop27 import ByteOp27
-from xpython.pyobj import Function
+from xpython.pyobj import Cell, Function
 
 # Gone since 3.0
 del ByteOp24.PRINT_EXPR
@@ -49,7 +49,9 @@ class ByteOp32(ByteOp27):
     def DELETE_DEREF(self, i):
         """Empties the cell contained in slot i of the cell and free
         variable storage. Used by the del statement."""
-        raise self.vm.PyVMError("DELETE_DEREF not implemented")
+        self.LOAD_DEREF(i)  # which fails if it is empty already
+        self.vm.pop()
+        self.vm.frame.cells[i].set(Cell.EMPTY)
 
     def DUP_TOP_TWO(self):
         """Duplicates the reference on top of the stack."""
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index 6c19540..801b7bb 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -31,7 +31,10 @@ class ByteOp34(ByteOp33):
         consulting the cell. This is used for loading free variables in class
         bodies.
         """
-        self.vm.push(self.vm.frame.cells[count].get())
+        if count in self.vm.frame.f_locals:
+            self.vm.push(self.vm.frame.f_locals[count])
+        else:
+            self.LOAD_DEREF(count)
 
     ##############################################################################
     # Order of function here is the same as in:
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index cb4e3a3..64ec3fc 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -345,9 +345,15 @@ class Cell:
 
     """
 
-    def __init__(self, value) -> None:
+    # The contents of a cell whose variable is not bound.
+    EMPTY = object()
+
+    def __init__(self, value=EMPTY) -> None:
         self.contents = value
 
+    def is_empty(self) -> bool:
+        return self.contents is Cell.EMPTY
+
     def get(self):
         return self.contents
 
@@ -439,8 +445,8 @@ class Frame(object):
         if f_code.co_cellvars:
             self.cells = {}
             for var in f_code.co_cellvars:
-                # Make a cell for the variable in our locals, or None.
-                cell = Cell(self.f_locals.get(var))
+                # Make a cell for the variable in our locals, or an empty one.
+                cell = Cell(self.f_locals.get(var, Cell.EMPTY))
                 self.cells[var] = cell
         else:
             self.cells = None
-- 
2.43.0


From d086cb738f4635f6fad6f1a64725cf8d4211efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 24/87] fix: call a method with an unpacked tuple, and leave an
 unpacked list alone

---
 xpython/byteop/byteop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index ebf2bf7..4079be5 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -147,6 +147,8 @@ class ByteOpBase(object):
 
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
+        # Extending the arguments below must not change the caller's list.
+        pos_args = list(pos_args)
         if hasattr(func, "im_func"):
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
-- 
2.43.0


From da8b158db61974d7c6b429726b99402add5d63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 25/87] fix: let keyword arguments have the names the
 interpreter uses for its own

---
 xpython/pyobj.py           | 4 ++--
 xpython/stdlib/inspect2.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 64ec3fc..94583bf 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -241,7 +241,7 @@ class Function:
         else:
             return self
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         if self.has_dot_zero:
             # D'oh! http://bugs.python.org/issue19611 Py2 doesn't know how to
             # inspect set comprehensions, dict comprehensions, or generator
@@ -318,7 +318,7 @@ class Method(object):
         else:
             return f"<Unbound Method {name}>"
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         if self.im_self is not None:
             return self.im_func(self.im_self, *args, **kwargs)
         else:
diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 983ec6d..093ca53 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -116,7 +116,7 @@ def getargspec(func) -> ArgSpec:
 ArgInfo = namedtuple("ArgInfo", "args varargs keywords locals")
 
 
-def getcallargs(func, *positional, **named):
+def getcallargs(func, /, *positional, **named):
     """Get the mapping of arguments to values.
 
     A dict is returned, with keys the function argument names (including the
-- 
2.43.0


From c373dcf400587b86579b9c860e3ee6a37473d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 26/87] fix: merge keyword arguments, of which one given twice
 is a TypeError

---
 xpython/byteop/byteop.py   | 23 ++++++++++++++++++++++-
 xpython/byteop/byteop35.py | 22 ++++------------------
 xpython/byteop/byteop36.py | 19 ++-----------------
 xpython/byteop/byteop39.py |  9 +++------
 4 files changed, 31 insertions(+), 42 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 4079be5..05e88fa 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -340,13 +340,34 @@ class ByteOpBase(object):
         for i in range(len_kw):
             key, val = self.vm.popn(2)
             named_args[key] = val
-        named_args.update(keyword_args)
+        if keyword_args:
+            named_args = self.merge_keyword_args([named_args, keyword_args])
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
 
         func = self.vm.pop()
         return self.call_function_with_args_resolved(func, pos_args, named_args)
 
+    def merge_keyword_args(self, mappings: list) -> dict:
+        """
+        Joins the mappings of keyword arguments of a call, which have to be
+        disjoint.
+        """
+        named_args = {}
+        for mapping in mappings:
+            if not hasattr(mapping, "keys"):
+                raise TypeError(
+                    "argument after ** must be a mapping, not "
+                    + type(mapping).__name__
+                )
+            for name in mapping.keys():
+                if name in named_args:
+                    raise TypeError(
+                        f"got multiple values for keyword argument '{name}'"
+                    )
+                named_args[name] = mapping[name]
+        return named_args
+
     def convert_native_to_Function(self, frame, func: Callable) -> Callable:
         assert inspect.isfunction(func) or isinstance(func, Function)
         slots = {"kwdefaults": {}, "annotations": {}}
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 3805c19..499366a 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -246,23 +246,9 @@ class ByteOp35(ByteOp34):
         mappings, the relative position of the corresponding callable
         f is encoded in the second byte of oparg.
         """
-        # In 3.5 fn_pos may be always 1 which meant the stack
-        # entry after the mappings. In 3.6 this function-position
-        # encoding was dropped. But we'll follow the spec.
-        fn_pos, count = divmod(oparg, 256)
-        fn_pos -= 1
-
-        elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_KW
-        self.vm.push(func)
-        if kwargs:
-            self.vm.push(kwargs)
+        # The function position is there for error messages only.
+        count = oparg & 0xFF
+        self.vm.push(self.merge_keyword_args(self.vm.popn(count)))
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """Calls a callable object, similarly to `CALL_FUNCTION_VAR` and
@@ -313,7 +299,7 @@ class ByteOp35(ByteOp34):
         for i in range(len_kw):
             key, val = self.vm.popn(2)
             keyword_args[key] = val
-        keyword_args.update(mapping)
+        keyword_args = self.merge_keyword_args([keyword_args, mapping])
         var_args = self.vm.pop()
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 4106515..523fbb0 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -110,23 +110,8 @@ class ByteOp36(ByteOp35):
         mappings, the relative position of the corresponding callable
         f is encoded in the second byte of oparg.
         """
-        count = oparg
-        fn_pos = 0
-
-        elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-
-        posargs = self.vm.pop()
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_EX
-        self.vm.push(func)
-        self.vm.push(posargs)
-        if kwargs:
-            self.vm.push(kwargs)
+        # The function position was dropped in 3.6.
+        self.vm.push(self.merge_keyword_args(self.vm.popn(oparg)))
 
     def CALL_FUNCTION_KW(self, argc: int):
         """
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 8d65a43..404fca1 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -140,18 +140,15 @@ class ByteOp39(ByteOp38):
     def DICT_MERGE(self, i) -> None:
         """Like DICT_UPDATE but raises an exception for duplicate keys."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        dups = set(destination.keys()) & set(TOS.keys())
-        if bool(dups):
-            raise RuntimeError(f"Duplicate keys '{dups}' in DICT_MERGE")
-        destination.update(TOS)
+        destination.update(self.merge_keyword_args([destination, TOS]))
 
     def DICT_UPDATE(self, i) -> None:
         """Calls dict.update(TOS1[-i], TOS). Used to build dicts."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
+        if not hasattr(TOS, "keys"):
+            raise TypeError(f"'{type(TOS).__name__}' object is not a mapping")
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
         destination.update(TOS)
-- 
2.43.0


From b823db9c9c7cc0220dea9decc412eb8f930e3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 27/87] fix: keep the order of keyword arguments from 3.6 on

---
 xpython/byteop/byteop36.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 523fbb0..ef340a5 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -79,10 +79,8 @@ class ByteOp36(ByteOp35):
         self.version_info = Version_info(3, 6, 14, "final", 0)
 
     def call_function_kw(self, argc: int):
-        namedargs = {}
         namedargs_tup = self.vm.pop()
-        for name in reversed(namedargs_tup):
-            namedargs[name] = self.vm.pop()
+        namedargs = dict(zip(namedargs_tup, self.vm.popn(len(namedargs_tup))))
 
         lenPos = argc - len(namedargs_tup)
         posargs = self.vm.popn(lenPos)
-- 
2.43.0


From 6f57b3f0b23353b6646136a2b26b01ced5598fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 28/87] fix: let handlers and finally blocks see SystemExit and
 the like

---
 xpython/vm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 5ff57c3..aaae5a8 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -681,7 +681,7 @@ class PyVM(object):
                     )
                 why = bytecode_fn(*arguments)
 
-        except Exception:
+        except BaseException:
             # Deal with exceptions encountered while executing the op.
             self.last_traceback = byteop.traceback_from_frame()
             self.last_exception = sys.exc_info()
@@ -901,7 +901,7 @@ class PyVM(object):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if not self.frame:
+                if not self.frame and issubclass(last_exception[0], Exception):
                     raise PyVMUncaughtException.from_tuple(last_exception)
                 raise last_exception[1]
             else:
-- 
2.43.0


From c2ab96728e489fe377f40e0c55641e13a2f4d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 29/87] fix: do not look for operands on the stack of an
 instruction that failed

---
 xpython/vm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index aaae5a8..9325792 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -702,7 +702,6 @@ class PyVM(object):
                                 offset,
                                 line_number,
                                 False,
-                                vm=self,
                             )
                         )
                     )
-- 
2.43.0


From ab6c51f7125557b3db234f67f805889dea493b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 30/87] fix: do not call the __repr__ of each argument of each
 call

---
 xpython/vm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 9325792..cec6575 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -326,10 +326,12 @@ class PyVM(object):
         # The callargs default is safe because we never modify the dict.
         # pylint: disable=dangerous-default-value
 
+        # Showing the arguments' values would run the __repr__() methods of the
+        # interpreted program, which are called this way too.
         log.debug(
             "make_frame: code=%r, callargs=%s, f_globals=%r, f_locals=%r",
             code,
-            repr(callargs),
+            list(callargs),
             (type(f_globals), id(f_globals)),
             (type(f_locals), id(f_locals)),
         )
-- 
2.43.0


From 191f1d93ddce62a181b9cbd8a5584c7f047e0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 31/87] fix: logging instructions does not change what the
 program does

---
 xpython/vm.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index cec6575..8609955 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -116,7 +116,7 @@ def format_instruction(
     elif int_arg is None:
         argrepr = ""
     elif byte_code in opc.COMPARE_OPS:
-        if vm.version >= (3, 12):
+        if opc.version_tuple >= (3, 12):
             int_arg >>= 4
         argrepr = opc.cmp_op[int_arg]
     elif isinstance(arguments, list) and arguments:
@@ -175,6 +175,9 @@ class PyVM(object):
 
         self.in_exception_processing = False
 
+        # True while an instruction is being formatted for the log.
+        self.in_log = False
+
         # This is somewhat hokey:
         # Give byteop routines a way to raise an error, without having
         # to import this file. We import from from byteops.
@@ -617,7 +620,12 @@ class PyVM(object):
 
     def log(self, bytecode_name, int_arg, arguments, offset, line_number):
         """Log arguments, block stack, and data stack for each opcode."""
-        op = self.format_instruction(
+        if self.in_log:
+            # This is in a __repr__() which is called below.
+            return
+        self.in_log = True
+        indent = "    " * (len(self.frames) - 1)
+        instruction = (
             self.frame,
             self.opc,
             bytecode_name,
@@ -626,10 +634,29 @@ class PyVM(object):
             offset,
             line_number,
             log.isEnabledFor(logging.DEBUG),
-            vm=self,
         )
-        indent = "    " * (len(self.frames) - 1)
-        stack_rep = repr(self.frame.stack)
+        saved = (
+            self.return_value,
+            self.last_exception,
+            self.handled_exception,
+            self.last_traceback,
+        )
+        try:
+            op = self.format_instruction(*instruction, vm=self)
+            stack_rep = repr(self.frame.stack)
+        except Exception:
+            # A __repr__() of the interpreted program can fail; for example
+            # because the object does not have all of its attributes yet.
+            op = self.format_instruction(*instruction)
+            stack_rep = "(?)"
+        finally:
+            self.in_log = False
+            (
+                self.return_value,
+                self.last_exception,
+                self.handled_exception,
+                self.last_traceback,
+            ) = saved
         block_stack_rep = repr(self.frame.block_stack)
 
         log.debug(f"  {indent}frame.stack: {stack_rep}")
-- 
2.43.0


From e7d48b900220013b54333354ff9d825b56d919b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 32/87] fix: give a 3.1 to 3.3 class body its namespace, and
 keep it out of every function's locals()

---
 xpython/builtins.py | 5 +++++
 xpython/vm.py       | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 425f3d9..636f8bd 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -75,8 +75,13 @@ def build_class(opc, func, name, *bases, **kwds):
     # This behavior when interpreting bytecode that isn't the same as
     # the bytecode using in the running Python can cause a SEGV, specifically
     # between Python 3.5 running 3.4 or earlier.
+    # Before 3.4 the namespace is the class body's parameter.
+    callargs = (
+        {"__locals__": namespace} if "__locals__" in class_body_code.co_varnames else {}
+    )
     frame = func._vm.make_frame(
         code=class_body_code,
+        callargs=callargs,
         f_globals=func.func_globals,
         f_locals=namespace,
         closure=func.__closure__,
diff --git a/xpython/vm.py b/xpython/vm.py
index 8609955..4c9a8ef 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -357,7 +357,7 @@ class PyVM(object):
 
         # Implement NEWLOCALS flag. See Objects/frameobject.c in CPython.
         if code.co_flags & CO_NEWLOCALS:
-            f_locals = {"__locals__": {}}
+            f_locals = {}
 
         f_locals.update(callargs)
 
-- 
2.43.0


From 84edc204b47cb0232d28f46270bd3918339e9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 33/87] fix: import star takes the names in __all__

---
 xpython/byteop/byteop24.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 971a846..42e562b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -337,15 +337,16 @@ class ByteOp24(ByteOpBase):
         return "yield"
 
     def IMPORT_STAR(self):
-        """Loads all symbols not starting with '_' directly from the module
-        TOS to the local namespace. The module is popped after loading all
+        """Loads all symbols in __all__, or if there is no __all__ those not
+        starting with '_', directly from the module TOS to the local namespace. The module is popped after loading all
         names. This opcode implements from module import *.
         """
-        # TODO: this doesn't use __all__ properly.
         mod = self.vm.pop()
-        for attr in dir(mod):
-            if attr[0] != "_":
-                self.vm.frame.f_locals[attr] = getattr(mod, attr)
+        names = getattr(mod, "__all__", None)
+        if names is None:
+            names = [attr for attr in dir(mod) if attr[0] != "_"]
+        for attr in names:
+            self.vm.frame.f_locals[attr] = getattr(mod, attr)
 
     def EXEC_STMT(self):
         """
-- 
2.43.0


From 127c498f6076b2802ca0263da571267be7fd20ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 34/87] fix: a positional-only parameter cannot be given by
 keyword

---
 xpython/stdlib/inspect3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/stdlib/inspect3.py b/xpython/stdlib/inspect3.py
index 35d5a85..682bbfe 100644
--- a/xpython/stdlib/inspect3.py
+++ b/xpython/stdlib/inspect3.py
@@ -251,7 +251,8 @@ def getcallargs(*func_and_positional, **named):
         arg2value[args[i]] = positional[i]
     if varargs:
         arg2value[varargs] = tuple(positional[n:])
-    possible_kwargs = set(args + kwonlyargs)
+    num_posonly = getattr(func.__code__, "co_posonlyargcount", 0) or 0
+    possible_kwargs = set(args[num_posonly:] + kwonlyargs)
     if varkw:
         arg2value[varkw] = {}
     for kw, value in named.items():
-- 
2.43.0


From 437437f50d0cf03b925f5b47d6dec076b15861d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 35/87] fix: pop and use the operands of a 2.4 or 2.5
 IMPORT_NAME

---
 xpython/byteop/byteop24.py | 8 +++++---
 xpython/byteop/byteop25.py | 9 +++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 42e562b..7e759ed 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -560,19 +560,21 @@ class ByteOp24(ByteOpBase):
 
     # Note: this changes in Python 2.6
     def IMPORT_NAME(self, name):
-        """Imports the module co_names[namei]. The module object is pushed
+        """Imports the module co_names[namei]. TOS is popped and provides
+        the fromlist argument of __import__().  The module object is pushed
         onto the stack.  The current namespace is not affected: for a
         proper import statement, a subsequent STORE_FAST instruction
         modifies the namespace.
 
         Note: name = co_names[namei] set in parse_byte_and_args()
 
-        Changed in 2.6
+        Changed in 2.5
         """
+        fromlist = self.vm.pop()
         frame = self.vm.frame
 
         module = import_fn(
-            name, frame.f_globals, frame.f_locals, fromlist=None, level=0
+            name, frame.f_globals, frame.f_locals, fromlist=fromlist, level=0
         )
 
         if module is sys:
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 5313e76..79ead7e 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -13,6 +13,15 @@ class ByteOp25(ByteOp24):
         self.version = "2.5.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(2, 5, 6, "final", 0)
 
+    def IMPORT_NAME(self, name):
+        """Like 2.4, but TOS1, the level argument of __import__(), is popped too.
+        A level of -1 is taken to be an absolute import, as it is in 2.6.
+        """
+        fromlist = self.vm.pop()
+        self.vm.pop()  # level
+        self.vm.push(fromlist)
+        super().IMPORT_NAME(name)
+
     # New in Python 2.5 but changes in 3.3.
     def WITH_CLEANUP(self):
         """Cleans up the stack when a "with" statement block exits. On top of
-- 
2.43.0


From 5b9ca9169305a87004d4b47595e3af0af0e28738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 36/87] fix: a StopIteration that a 3.7 generator raises
 becomes a RuntimeError

---
 xpython/pyobj.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 94583bf..e47f2df 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -579,6 +579,12 @@ class Generator(object):
         self.running = True
         try:
             val = self.vm.resume_frame(self.gi_frame)
+        except StopIteration as e:
+            self.finished = True
+            if self.vm.version >= (3, 7):
+                # PEP 479
+                raise RuntimeError("generator raised StopIteration") from e
+            raise
         except BaseException:
             self.finished = True
             raise
-- 
2.43.0


From 725418176cc47353c1a1e2a397da1da61a73bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 37/87] fix: give each 3.11 keyword argument its own value

---
 xpython/byteop/byteop311.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index f248f0e..fa298ba 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -358,8 +358,9 @@ class ByteOp311(ByteOp310):
         Replaces CALL_FUNCTION_KW
         """
 
-        for name in names:
-            self.vm.frame.call_shape_kwnames[name] = self.vm.pop()
+        self.vm.frame.call_shape_kwnames = dict(
+            zip(names, self.vm.popn(len(names)))
+        )
         return
 
     # Changed in 3.11...
-- 
2.43.0


From 575394c5a2ada9323d36d27a7ddee4e51e57b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 38/87] fix: 3.11 conditional jumps test truth, not equality
 with True or False

---
 xpython/byteop/byteop311.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index fa298ba..50f3977 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -561,7 +561,7 @@ class ByteOp311(ByteOp310):
         If TOS is true, increments the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == True:  # noqa
+        if val:
             self.vm.jump(offset)
 
     def POP_JUMP_BACKWARD_IF_TRUE(self, offset: int):
@@ -569,7 +569,7 @@ class ByteOp311(ByteOp310):
         If TOS is true, decrements the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == True:  # noqa
+        if val:
             self.vm.jump(offset)
 
     def POP_JUMP_FORWARD_IF_FALSE(self, offset: int):
@@ -577,7 +577,7 @@ class ByteOp311(ByteOp310):
         If TOS is false, increments the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == False:  # noqa
+        if not val:
             self.vm.jump(offset)
 
     def POP_JUMP_BACKWARD_IF_FALSE(self, offset: int):
@@ -585,7 +585,7 @@ class ByteOp311(ByteOp310):
         If TOS is false, decrements the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == False:  # noqa
+        if not val:
             self.vm.jump(offset)
 
     def POP_JUMP_FORWARD_IF_NOT_NONE(self, offset: int):
-- 
2.43.0


From 61367f052c1f8c874cd269c1f69c22c9fe2a84b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 39/87] fix: the / of 2.x is integer division on integers

---
 xpython/byteop/byteop.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 05e88fa..849b5cf 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -28,10 +28,23 @@ UNARY_OPERATORS = {
     "INVERT": operator.invert,
 }
 
+def classic_divide(x, y):
+    """The "/" of Python 2, which is integer division on integers, and uses
+    __div__() and __rdiv__() of instances that have it."""
+    if isinstance(x, int) and isinstance(y, int):
+        return x // y
+    for operand, other, method in ((x, y, "__div__"), (y, x, "__rdiv__")):
+        if hasattr(type(operand), method):
+            result = getattr(operand, method)(other)
+            if result is not NotImplemented:
+                return result
+    return x / y
+
+
 BINARY_OPERATORS = {
     "POWER": pow,
     "MULTIPLY": operator.mul,
-    "DIVIDE": getattr(operator, "div", lambda x, y: x / y),
+    "DIVIDE": classic_divide,
     "FLOOR_DIVIDE": operator.floordiv,
     "TRUE_DIVIDE": operator.truediv,
     "MODULO": operator.mod,
@@ -467,7 +480,7 @@ class ByteOpBase(object):
             if hasattr(x, "__idiv__"):
                 x = x.__idiv__(y)
             else:
-                x //= y
+                x = classic_divide(x, y)
         elif op == "FLOOR_DIVIDE":
             x //= y
         elif op == "TRUE_DIVIDE":
-- 
2.43.0


From 453a5dfa8c68712b1cf742bc9dc30ef99d62998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 40/87] fix: do not ask a mapping of keyword arguments for its
 truth

---
 xpython/byteop/byteop.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 849b5cf..5afc6ea 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -353,8 +353,7 @@ class ByteOpBase(object):
         for i in range(len_kw):
             key, val = self.vm.popn(2)
             named_args[key] = val
-        if keyword_args:
-            named_args = self.merge_keyword_args([named_args, keyword_args])
+        named_args = self.merge_keyword_args([named_args, keyword_args])
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
 
-- 
2.43.0


From b413b1db33102f2cd89c6ec96a8349336b52cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 41/87] fix: a 2.x generator expression that has free variables
 takes one argument

---
 xpython/byteop/byteop24.py |  4 ++++
 xpython/byteop/byteop26.py | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 7e759ed..0660658 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -836,6 +836,10 @@ class ByteOp24(ByteOpBase):
             closure=closure,
             vm=self.vm,
         )
+
+        if argc == 0 and code.co_name in COMPREHENSION_FN_NAMES:
+            fn.has_dot_zero = True
+
         self.vm.push(fn)
 
     def BUILD_SLICE(self, count):
diff --git a/xpython/byteop/byteop26.py b/xpython/byteop/byteop26.py
index cdb7c39..115b603 100644
--- a/xpython/byteop/byteop26.py
+++ b/xpython/byteop/byteop26.py
@@ -14,7 +14,11 @@ except ImportError:
     importlib = None
 
 from xpython.byteop.byteop import fmt_binary_op
-from xpython.byteop.byteop24 import Version_info, fmt_make_function
+from xpython.byteop.byteop24 import (
+    COMPREHENSION_FN_NAMES,
+    Version_info,
+    fmt_make_function,
+)
 from xpython.byteop.byteop25 import ByteOp25
 from xpython.pyobj import Function
 
@@ -98,4 +102,8 @@ class ByteOp26(ByteOp25):
         defaults = self.vm.popn(argc)
         globs = self.vm.frame.f_globals
         fn = Function(name, code, globs, defaults, closure, self.vm)
+
+        if argc == 0 and code.co_name in COMPREHENSION_FN_NAMES:
+            fn.has_dot_zero = True
+
         self.vm.push(fn)
-- 
2.43.0


From 0aafb534199aacd6568ba08d532b75acf3269f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 42/87] fix: return a value from a 3.8 to 3.10 except clause

---
 xpython/byteop/byteop311.py |  5 ++++-
 xpython/byteop/byteop38.py  | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 50f3977..3c01433 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -20,7 +20,7 @@ from xpython.byteop.byteop36 import (
     MAKE_FUNCTION_SLOTS,
 )
 from xpython.builtins import build_class, builtin_super
-from xpython.byteop.byteop37 import NULL
+from xpython.byteop.byteop37 import NULL, ByteOp37
 from xpython.byteop.byteop310 import ByteOp310
 from xpython.pyobj import Cell, Function
 
@@ -56,6 +56,9 @@ class ByteOp311(ByteOp310):
         self.version = "3.11.0 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(3, 11, 0, "final", 0)
 
+    # In 3.11 there is just one value for the exception state.
+    POP_EXCEPT = ByteOp37.POP_EXCEPT
+
     def call311_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
 
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index 9843701..bd2ade3 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -92,6 +92,20 @@ class ByteOp38(ByteOp37):
             raise self.vm.PyVMError("Confused END_FINALLY")
         return why
 
+    def POP_EXCEPT(self):
+        """
+        Removes one block from the block stack. The popped block must be an
+        exception handler block, as implicitly created when entering an except
+        handler. The three popped values are used to restore the exception
+        state. Below them there can be a value which the handler returns."""
+        block = self.vm.pop_block()
+        if block.type != "except-handler":
+            raise self.vm.PyVMError(
+                f"popped block is not an except handler; is {block}"
+            )
+        tb, value, exctype = self.vm.popn(3)
+        self.vm.last_exception = self.vm.handled_exception = exctype, value, tb
+
     def CALL_FINALLY(self, delta):
         """Pushes the address of the next instruction onto the stack and
         increments bytecode counter by delta. Used for calling the
-- 
2.43.0


From 490ea059ac894acb4f2b88fb3aa734971888fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 43/87] fix: bind the tuple parameters of 2.x functions

---
 xpython/stdlib/inspect2.py | 50 ++++----------------------------------
 1 file changed, 5 insertions(+), 45 deletions(-)

diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 093ca53..00d4d3c 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -7,9 +7,6 @@ import sys
 from collections import namedtuple
 from inspect import ismethod
 
-# For the kinds of specific opcode use we need,
-# all 2.x opcodes are compatible with what is in 2.7
-import xdis.opcodes.opcode_2x.opcode_27 as opc
 from xdis import COMPILER_FLAG_BIT, iscode
 
 ArgSpec = namedtuple("ArgSpec", "args varargs keywords defaults")
@@ -36,8 +33,8 @@ def getargs(co, version) -> Arguments:
     """Get information about the arguments accepted by a code object.
 
     Three things are returned: (args, varargs, varkw), where 'args' is
-    a list of argument names (possibly containing nested lists), and
-    'varargs' and 'varkw' are the names of the * and ** arguments or None."""
+    a list of argument names, and 'varargs' and 'varkw' are the names of the
+    * and ** arguments or None."""
 
     if not iscode(co):
         raise TypeError(f"{co!r} is not a code object")
@@ -45,46 +42,9 @@ def getargs(co, version) -> Arguments:
     nargs = co.co_argcount
     names = co.co_varnames
     args = list(names[:nargs])
-    step = 0
-
-    # The following acrobatics are for anonymous (tuple) arguments.
-    for i in range(nargs):
-        if args[i][:1] in ("", "."):
-            stack, remain, count = [], [], []
-            while step < len(co.co_code):
-                op = ord(co.co_code[step])
-                step = step + 1
-                if op >= opc.HAVE_ARGUMENT:
-                    opname = opc.opname[op]
-                    value = ord(co.co_code[step]) + ord(co.co_code[step + 1]) * 256
-                    step = step + 2
-                    if opname in ("UNPACK_TUPLE", "UNPACK_SEQUENCE"):
-                        remain.append(value)
-                        count.append(value)
-                    elif opname in ("STORE_FAST", "STORE_DEREF"):
-                        if opname == "STORE_FAST":
-                            stack.append(names[value])
-                        else:
-                            stack.append(co.co_cellvars[value])
-
-                        # Special case for sublists of length 1: def foo((bar))
-                        # doesn't generate the UNPACK_TUPLE bytecode, so if
-                        # `remain` is empty here, we have such a sublist.
-                        if not remain:
-                            stack[0] = [stack[0]]
-                            break
-                        else:
-                            remain[-1] = remain[-1] - 1
-                            while remain[-1] == 0:
-                                remain.pop()
-                                size = count.pop()
-                                stack[-size:] = [stack[-size:]]
-                                if not remain:
-                                    break
-                                remain[-1] = remain[-1] - 1
-                            if not remain:
-                                break
-            args[i] = stack[0]
+
+    # An anonymous (tuple) argument has a name like ".1". It is the function's
+    # own code which unpacks the local variable of that name.
 
     varargs = None
     if co.co_flags & COMPILER_FLAG_BIT["VARARGS"]:
-- 
2.43.0


From c6e9ba09829a2ef81f275800b64d583db661fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 44/87] fix: name the functions and closures that 3.3 to 3.5
 bytecode makes

MAKE_CLOSURE in 3.3 to 3.5, and MAKE_FUNCTION in 3.4 and 3.5, took the
qualified name on the stack for the name of the function.
---
 xpython/byteop/byteop33.py | 5 +++--
 xpython/byteop/byteop34.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 365788c..3b4d9bf 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -24,7 +24,7 @@ class ByteOp33(ByteOp32):
         which are found below the cells.
         """
         default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-        code, name = self.vm.popn(2)
+        code, qualname = self.vm.popn(2)
         closure = self.vm.pop()
 
         annotations = self.pop_annotations(annotate_count)
@@ -35,7 +35,7 @@ class ByteOp33(ByteOp32):
         globs = self.vm.frame.f_globals
 
         fn = Function(
-            name=name,
+            name=code.co_name,
             code=code,
             globs=globs,
             argdefs=tuple(defaults),
@@ -43,6 +43,7 @@ class ByteOp33(ByteOp32):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname if self.vm.version >= (3, 4) else None,
         )
 
         self.vm.push(fn)
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index 801b7bb..c3edcba 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -76,8 +76,9 @@ class ByteOp34(ByteOp33):
 
         default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
 
-        name = self.vm.pop()
+        qualname = self.vm.pop()
         code = self.vm.pop()
+        name = code.co_name
         annotations = self.pop_annotations(annotate_count)
         defaults, kwdefaults = self.pop_defaults(default_count, kw_default_count)
 
@@ -94,7 +95,7 @@ class ByteOp34(ByteOp33):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
-            # FIXME: figure out qualname
+            qualname=qualname,
         )
 
         if (
-- 
2.43.0


From e9a474fc73342715e6e21c83c479d05b2c367140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 45/87] fix: set __module__ of the functions that the VM makes

---
 xpython/pyobj.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index e47f2df..7f93a55 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -149,6 +149,7 @@ class Function:
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
         self.__dict__ = {"version": vm.version, "_vm": vm}
+        self.__module__ = globs.get("__name__")
 
         self.__doc__ = (
             code.co_consts[0] if hasattr(code, "co_consts") and code.co_consts else None
-- 
2.43.0


From c578e6a401532b225c25429e81fae12273fa21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 46/87] fix: a generator is exhausted when it has returned, not
 when a return meets a finally block

---
 xpython/byteop/byteop24.py | 2 --
 xpython/vm.py              | 3 +++
 xpython/vmtrace.py         | 3 +++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 0660658..27697c3 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -325,8 +325,6 @@ class ByteOp24(ByteOpBase):
     def RETURN_VALUE(self):
         """Returns with TOS to the caller of the function."""
         self.vm.return_value = self.vm.pop()
-        if self.vm.frame.generator:
-            self.vm.frame.generator.finished = True
         return "return"
 
     def YIELD_VALUE(self):
diff --git a/xpython/vm.py b/xpython/vm.py
index 4c9a8ef..8cfd2ed 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -924,6 +924,9 @@ class PyVM(object):
 
         # TODO: handle generator exception state
 
+        if why == "return" and frame.generator:
+            frame.generator.finished = True
+
         self.pop_frame()
 
         if why == "exception":
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 3fcab8f..8bb646f 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -346,6 +346,9 @@ class PyVMTraced(PyVM):
 
         # TODO: handle generator exception state
 
+        if why == "return" and frame.generator:
+            frame.generator.finished = True
+
         self.pop_frame()
 
         if why == "exception":
-- 
2.43.0


From 60470a4a20c617d3729e665b05be721653f22382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:52 +0000
Subject: [PATCH 47/87] fix: a generator that is running cannot be resumed

---
 xpython/pyobj.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 7f93a55..ef2997b 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -569,6 +569,8 @@ class Generator(object):
         return self.send(None)
 
     def send(self, value=None):
+        if self.gi_running:
+            raise ValueError("generator already executing")
         if self.finished:
             raise StopIteration
         if not self.started and value is not None:
@@ -577,7 +579,7 @@ class Generator(object):
             # Before 2.5, "yield" is a statement and has no value.
             self.gi_frame.stack.append(value)
         self.started = True
-        self.running = True
+        self.gi_running = True
         try:
             val = self.vm.resume_frame(self.gi_frame)
         except StopIteration as e:
@@ -589,8 +591,9 @@ class Generator(object):
         except BaseException:
             self.finished = True
             raise
+        finally:
+            self.gi_running = False
         if self.finished:
-            self.running = False
             raise StopIteration(val)
         return val
 
-- 
2.43.0


From d9d6861a8e0a2d532e073c1d7ec705daa740fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:20 +0000
Subject: [PATCH 48/87] fix: send a value that is not None to whatever yield
 from delegates to

---
 xpython/byteop/byteop33.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 3b4d9bf..6465339 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -5,7 +5,7 @@
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
-from xpython.pyobj import Function, Generator
+from xpython.pyobj import Function
 
 
 class ByteOp33(ByteOp32):
@@ -100,8 +100,7 @@ class ByteOp33(ByteOp32):
         x = self.vm.top
 
         try:
-            if not isinstance(x, Generator) or u is None:
-                # Call next on iterators.
+            if u is None:
                 retval = next(x)
             else:
                 retval = x.send(u)
-- 
2.43.0


From 9e9e0a1599d84fd9ee5610c561dd152672b63d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:04 +0000
Subject: [PATCH 49/87] fix: the docstring of a method is that of its function

---
 xpython/pyobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index ef2997b..d1b72f4 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -297,7 +297,7 @@ class Method(object):
     """Create a bound instance method object."""
 
     def __init__(self, obj, _class, func) -> None:
-        self.__doc__ = obj.__doc__
+        self.__doc__ = getattr(func, "__doc__", None)
         self.im_self = obj
         self.im_class = _class
         self.im_func = func
-- 
2.43.0


From b616f5d4231c24bd86243e42a02b683143079c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 50/87] fix: recognize methods and super by what they are, not
 by their attributes

---
 xpython/byteop/byteop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 5afc6ea..010500e 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, copy_module
+from xpython.pyobj import Function, Method, copy_module
 from xpython.vm import PyVM
 
 
@@ -162,7 +162,7 @@ class ByteOpBase(object):
         frame = self.vm.frame
         # Extending the arguments below must not change the caller's list.
         pos_args = list(pos_args)
-        if hasattr(func, "im_func"):
+        if issubclass(type(func), Method):
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
@@ -340,7 +340,7 @@ class ByteOpBase(object):
         ):
             log.debug(f"calling native function {func.__name__}")
         elif inspect.isclass(func):
-            if func.__name__ == "super":
+            if func is super:
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
 
-- 
2.43.0


From b700dceb7f72418be97edc6893d5262fcc9d6243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:45 +0000
Subject: [PATCH 51/87] fix: give any metaclass a native __classcell__

---
 xpython/builtins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 636f8bd..435601a 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -94,9 +94,9 @@ def build_class(opc, func, name, *bases, **kwds):
     # See test_attribute_access.py for a simple example that needs the update below.
     namespace.update(frame.f_locals)
 
-    # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
-    # but needs a builtin cell object. make_cell() can do this.
-    if "__classcell__" in namespace and metaclass == type:
+    # The builtin "type", which metaclasses end up calling, can't deal with a
+    # xpython.pyobj.Cell object but needs a builtin cell object. make_cell() can do this.
+    if isinstance(namespace.get("__classcell__"), Cell):
         namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
 
     try:
-- 
2.43.0


From 504910afbbaf8db2de360daea21fe6699ad5f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:27 +0000
Subject: [PATCH 52/87] fix: run the creation of a class once, resolving bases
 that are not classes

---
 xpython/builtins.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 435601a..e9a1efc 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -4,6 +4,8 @@ A place to implement built-in functions.
 We use the bytecode for these when doing cross-version interpreting
 """
 
+import types
+
 from typing import Any
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
@@ -43,6 +45,9 @@ def build_class(opc, func, name, *bases, **kwds):
     if not isinstance(name, str):
         raise TypeError("name is not a string")
 
+    # Replace bases that are not classes, e.g. typing.Generic[T].
+    orig_bases, bases = bases, types.resolve_bases(bases)
+
     metaclass = kwds.pop("metaclass", None)
 
     if metaclass is None:
@@ -94,23 +99,15 @@ def build_class(opc, func, name, *bases, **kwds):
     # See test_attribute_access.py for a simple example that needs the update below.
     namespace.update(frame.f_locals)
 
+    if bases is not orig_bases:
+        namespace["__orig_bases__"] = orig_bases
+
     # The builtin "type", which metaclasses end up calling, can't deal with a
     # xpython.pyobj.Cell object but needs a builtin cell object. make_cell() can do this.
     if isinstance(namespace.get("__classcell__"), Cell):
         namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
 
-    try:
-        cls = metaclass(name, bases, namespace, **kwds)
-    except TypeError:
-        # For mysterious reasons the above can raise a:
-        #  __init__() takes *n* positional arguments but *n+1* were given.
-        # In particular for:
-        #     class G(Generic[T]):
-        #        pass
-        import types
-
-        cls = types.new_class(name, bases, kwds, exec_body=lambda ns: namespace)
-        pass
+    cls = metaclass(name, bases, namespace, **kwds)
 
     if isinstance(cell, Cell):
         cell.set(cls)
-- 
2.43.0


From 74deb97e6d496f9d4a8a03fa2f6af3d7816963f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:53 +0000
Subject: [PATCH 53/87] fix: look up a name once, in the way of the mapping
 that it is in

---
 xpython/byteop/byteop.py   | 17 ++++++++---------
 xpython/byteop/byteop24.py |  5 ++---
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 010500e..84ca105 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -510,15 +510,14 @@ class ByteOpBase(object):
     def lookup_name(self, name):
         """Returns the value in the current frame associated for name"""
         frame = self.vm.frame
-        if name in frame.f_locals:
-            val = frame.f_locals[name]
-        elif name in frame.f_globals:
-            val = frame.f_globals[name]
-        elif name in frame.f_builtins:
-            val = frame.f_builtins[name]
-        else:
-            raise NameError(f"name '{name}' is not defined")
-        return val
+        for namespace in (frame.f_locals, frame.f_globals, frame.f_builtins):
+            # The local namespace can be any mapping, which may know what
+            # to do with a name that it does not contain.
+            try:
+                return namespace[name]
+            except KeyError:
+                pass
+        raise NameError(f"name '{name}' is not defined")
 
     def print_item(self, item, to=None):
         if to is None:
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 27697c3..1630c98 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -480,15 +480,14 @@ class ByteOp24(ByteOpBase):
         """Pushes the value associated with co_names[namei] onto the stack.
         Running this opcode can raise a NameError.
         """
-        #
         try:
-            self.lookup_name(name)
+            value = self.lookup_name(name)
         except NameError:
             self.vm.last_traceback = self.traceback_from_frame()
             self.create_exception(NameError, f"name '{name}' is not defined")
             return "exception"
         else:
-            self.vm.push(self.lookup_name(name))
+            self.vm.push(value)
 
     # Building
 
-- 
2.43.0


From 6ba2f46e46765f666474f1872e46941f9504fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 54/87] fix: bind __new__ and the like as type() does, and
 leave the namespace given to type() alone

---
 xpython/builtins.py        | 15 +++++++++++++++
 xpython/byteop/byteop.py   | 17 ++++++++++-------
 xpython/byteop/byteop24.py |  2 ++
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index e9a1efc..dc6fbcd 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -30,6 +30,20 @@ def func_code(func):
 # added a couple of bug fixes.
 
 
+def bind_special_methods(namespace):
+    """
+    The methods that type() turns into static or class methods if they are native
+    functions, have to be turned into that if they are functions of the VM.
+    """
+    for name, kind in (
+        ("__new__", staticmethod),
+        ("__init_subclass__", classmethod),
+        ("__class_getitem__", classmethod),
+    ):
+        if isinstance(namespace.get(name), Function):
+            namespace[name] = kind(namespace[name])
+
+
 def build_class(opc, func, name, *bases, **kwds):
     """
     Like built-in __build_class__() in bltinmodule.c, but running in the
@@ -107,6 +121,7 @@ def build_class(opc, func, name, *bases, **kwds):
     if isinstance(namespace.get("__classcell__"), Cell):
         namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
 
+    bind_special_methods(namespace)
     cls = metaclass(name, bases, namespace, **kwds)
 
     if isinstance(cell, Cell):
diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 84ca105..0ee9e82 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -13,7 +13,11 @@ from typing import Any, Callable
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
-from xpython.builtins import build_class, builtin_super
+from xpython.builtins import (
+    bind_special_methods,
+    build_class,
+    builtin_super,
+)
 from xpython.pyobj import Function, Method, copy_module
 from xpython.vm import PyVM
 
@@ -318,13 +322,12 @@ class ByteOpBase(object):
                     init_fn = pos_args[0]
                     if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
                         pos_args[0] = self.vm.fn2native[init_fn]
-        elif func is type and len(pos_args) == 3:
+        elif func is type and len(pos_args) == 3 and isinstance(pos_args[2], dict):
+            namespace = pos_args[2] = dict(pos_args[2])
             # Set __module__
-            assert not named_args
-            namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
+            if "__name__" in frame.f_globals:
+                namespace.setdefault("__module__", frame.f_globals["__name__"])
+            bind_special_methods(namespace)
 
         if (
             inspect.isfunction(func)
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 1630c98..69c2b1a 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -12,6 +12,7 @@ from copy import copy
 from itertools import islice
 from typing import Any, Optional
 
+from xpython.builtins import bind_special_methods
 from xpython.byteop.byteop import (
     ByteOpBase,
     fmt_binary_op,
@@ -401,6 +402,7 @@ class ByteOp24(ByteOpBase):
         tuple of the names of the base classes, and TOS2 the class name.
         """
         name, bases, methods = self.vm.popn(3)
+        bind_special_methods(methods)
         # Note: type() wants to only create new-style classes, while
         # bases might include only old-style classes. This will
         # trigger this error: TypeError: a new-style class can't have
-- 
2.43.0


From c33f67c650f921e51580e5747d66e12e4d1769a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 55/87] fix: bound methods are equal by object and function,
 and give access to both

---
 xpython/pyobj.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d1b72f4..d4ec6df 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -298,6 +298,7 @@ class Method(object):
 
     def __init__(self, obj, _class, func) -> None:
         self.__doc__ = getattr(func, "__doc__", None)
+        self.__module__ = getattr(func, "__module__", None)
         self.im_self = obj
         self.im_class = _class
         self.im_func = func
@@ -312,6 +313,27 @@ class Method(object):
         # This causes failure
         # self.__name__ = obj.__name__
 
+    @property
+    def __self__(self):
+        return self.im_self
+
+    @property
+    def __func__(self):
+        return self.im_func
+
+    def __getattr__(self, name):
+        if name == "im_func":
+            raise AttributeError(name)
+        return getattr(self.im_func, name)
+
+    def __eq__(self, other):
+        if not isinstance(other, Method):
+            return NotImplemented
+        return self.im_self is other.im_self and self.im_func is other.im_func
+
+    def __hash__(self):
+        return hash((id(self.im_self), self.im_func))
+
     def __repr__(self) -> str:  # pragma: no cover
         name = f"{self.im_class.__name__}.{self.im_func.func_name}"
         if self.im_self is not None:
-- 
2.43.0


From c650b35402476e3a065296d4a2352d0388826e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 56/87] fix: honour __metaclass__ in 2.x

---
 xpython/byteop/byteop24.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 69c2b1a..0d1c467 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -408,6 +408,17 @@ class ByteOp24(ByteOpBase):
         # trigger this error: TypeError: a new-style class can't have
         # only classic bases So what we'll do is throw in "object" so
         # there is at least one new-style class.
+        if "__metaclass__" in methods:
+            metaclass = methods["__metaclass__"]
+        elif bases:
+            metaclass = type(bases[0])
+        else:
+            metaclass = self.vm.frame.f_globals.get("__metaclass__", type)
+
+        if metaclass is not type:
+            self.vm.push(metaclass(name, bases, methods))
+            return
+
         try:
             klass = type(name, bases, methods)
         except TypeError:
-- 
2.43.0


From 311cb4992d3a38b89163fbf96b700537ffc1d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 57/87] fix: separate the items of a print statement on files
 without softspace too

---
 xpython/byteop/byteop.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 0ee9e82..0ab3586 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -541,24 +541,32 @@ class ByteOpBase(object):
         # Note This attribute is not used to control the print
         # statement, but to allow the implementation of print to keep
         # track of its internal state.
-        if hasattr(to, "softspace") and to.softspace:
-            print(" ", end="", file=to)
-            to.softspace = 0
-        print(item, end="", file=to)
-
-        if hasattr(to, "softspace"):
-            if isinstance(item, str):
-                if (not item) or (not item[-1].isspace()) or (item[-1] == " "):
-                    to.softspace = 1
-            else:
-                to.softspace = 1
+        if self.set_softspace(to, 0):
+            to.write(" ")
+        to.write(str(item))
+
+        if isinstance(item, str):
+            if (not item) or (not item[-1].isspace()) or (item[-1] == " "):
+                self.set_softspace(to, 1)
+        else:
+            self.set_softspace(to, 1)
 
     def print_newline(self, to=None):
         if to is None:
             to = sys.stdout
-        print("", file=to)
-        if hasattr(to, "softspace"):
-            to.softspace = 0
+        to.write("\n")
+        self.set_softspace(to, 0)
+
+    def set_softspace(self, to, value):
+        """Sets the softspace attribute of a file, if that can be, and
+        returns the value it had, or 0 if it had none.
+        """
+        old_value = getattr(to, "softspace", 0)
+        try:
+            to.softspace = value
+        except AttributeError:
+            pass
+        return old_value if isinstance(old_value, int) else 0
 
     def setup_sys_module(self) -> types.ModuleType:
         """If this has not previously been done, make a *copy* of the
-- 
2.43.0


From 5a78effb491d15ce49e2b15743f6b7a24d217039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 58/87] fix: a call that raises a subclass of TypeError raises
 just that

---
 xpython/byteop/byteop24.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 0d1c467..eade790 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -940,12 +940,7 @@ class ByteOp24(ByteOpBase):
         off the stack, calls the callable object with those arguments,
         and pushes the return value returned by the callable object.
         """
-        try:
-            return self.call_function(argc, var_args=[], keyword_args={})
-        except TypeError as exc:
-            tb = self.vm.last_traceback = self.traceback_from_frame()
-            self.vm.last_exception = (TypeError, exc, tb)
-            return "exception"
+        return self.call_function(argc, var_args=[], keyword_args={})
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """
-- 
2.43.0


From 8a9fe13531851793bd76be5032e1689d32c37d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 59/87] fix: 3.6+ calls with more than 255 positional arguments

---
 xpython/byteop/byteop36.py     | 11 +++++++++++
 xpython/byteop/byteop36pypy.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index ef340a5..e590b74 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -111,6 +111,17 @@ class ByteOp36(ByteOp35):
         # The function position was dropped in 3.6.
         self.vm.push(self.merge_keyword_args(self.vm.popn(oparg)))
 
+    def CALL_FUNCTION(self, argc: int):
+        """
+        Calls a callable object with positional arguments.
+
+        Changed in version 3.6: argc is the number of positional arguments;
+        this opcode is not used for calls with keyword arguments.
+        """
+        pos_args = self.vm.popn(argc)
+        func = self.vm.pop()
+        return self.call_function_with_args_resolved(func, pos_args, {})
+
     def CALL_FUNCTION_KW(self, argc: int):
         """
         Calls a callable object with positional (if any) and keyword
diff --git a/xpython/byteop/byteop36pypy.py b/xpython/byteop/byteop36pypy.py
index c54a3c2..08adfb7 100644
--- a/xpython/byteop/byteop36pypy.py
+++ b/xpython/byteop/byteop36pypy.py
@@ -18,5 +18,6 @@ class ByteOp36PyPy(ByteOp36, ByteOpPyPy):
     # Python 3.6 changes the semantics of the below opcodes.
     # However, PyPy 3.6 uses the previous semantics, which we can pull
     # from older Python versions
+    CALL_FUNCTION = ByteOp24.CALL_FUNCTION
     CALL_FUNCTION_KW = ByteOp24.CALL_FUNCTION_KW
     BUILD_MAP_UNPACK_WITH_CALL = ByteOp35.BUILD_MAP_UNPACK_WITH_CALL
-- 
2.43.0


From 636cc7deef07c9e41f28571746c2c90efd01f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 60/87] fix: keep the order of keyword arguments of PyPy 3.6 to
 3.8 calls

---
 xpython/byteop/byteop.py       | 12 ++++++++----
 xpython/byteop/byteop35.py     | 10 ++--------
 xpython/byteop/byteop37pypy.py | 18 ++----------------
 3 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 0ab3586..20c3d0a 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -350,12 +350,16 @@ class ByteOpBase(object):
         retval = func(*pos_args, **named_args)
         self.vm.push(retval)
 
+    def pop_keyword_args(self, count: int) -> dict:
+        """
+        Pops that many keyword arguments, each a name below a value.
+        """
+        names_and_values = self.vm.popn(2 * count)
+        return dict(zip(names_and_values[::2], names_and_values[1::2]))
+
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
-        named_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            named_args[key] = val
+        named_args = self.pop_keyword_args(len_kw)
         named_args = self.merge_keyword_args([named_args, keyword_args])
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 499366a..c6a3ed9 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -272,11 +272,8 @@ class ByteOp35(ByteOp34):
         keyword arguments.
 
         """
-        keyword_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            keyword_args[key] = val
+        keyword_args = self.pop_keyword_args(len_kw)
         var_args = self.vm.pop()
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
@@ -294,11 +291,8 @@ class ByteOp35(ByteOp34):
         arguments; see `CALL_FUNCTION_VAR`.
         """
         mapping = self.vm.pop()
-        keyword_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            keyword_args[key] = val
+        keyword_args = self.pop_keyword_args(len_kw)
         keyword_args = self.merge_keyword_args([keyword_args, mapping])
         var_args = self.vm.pop()
         pos_args = self.vm.popn(len_pos)
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index dba89a5..b01b5a1 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -67,27 +67,13 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         case is garbage. After that is the method to call.
         """
 
-        # We are going to access parameter off of the stack which is
-        # has the last parameter closest to the top.
-        # Reverse keyword names in the tuple match our access pattern.
         kw_names = self.vm.pop()
         assert isinstance(kw_names, tuple)
-        kw_names = list(reversed(kw_names))
         kwarg_count = len(kw_names)
 
         assert argc >= kwarg_count
-        pos_argc = argc - kwarg_count
-        keyword_args = {}
-
-        for i in range(kwarg_count):
-            param_value = self.vm.pop()
-            keyword_args[kw_names[i]] = param_value
-
-        pos_args = []
-        for i in range(pos_argc):
-            pos_args.append(self.vm.pop())
-
-        pos_args = list(reversed(pos_args))
+        keyword_args = dict(zip(kw_names, self.vm.popn(kwarg_count)))
+        pos_args = self.vm.popn(argc - kwarg_count)
 
         self.vm.pop()  # cached method slot is not used here.
         func = self.vm.pop()
-- 
2.43.0


From ba4b7aa52994a3a2eb7cd2ea0389cdaf02529e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 61/87] fix: breakpoints run the instruction they replace

A breakpoint was set in the code object, which other frames share, and was
set twice when asked for twice. Before 3.6 what came after an instruction
under a breakpoint was decoded from the middle of that instruction, and
prefixes of an instruction under a breakpoint were lost. The answers "skip"
and "return" of the callback ended the frame wrongly.
---
 xpython/byteop/byteop24.py |  4 ++--
 xpython/pyobj.py           |  3 +++
 xpython/vm.py              |  6 +++++-
 xpython/vmtrace.py         | 19 ++++++++++++++++---
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index eade790..64d483e 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -191,10 +191,10 @@ class ByteOp24(ByteOpBase):
                     frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
                 elif result == "return":
                     # Immediate return with value
-                    return self.return_value
+                    return result
                 elif result == "skip":
                     # Don't run instruction
-                    return result
+                    return None
 
         if log.isEnabledFor(logging.INFO):
             vm.log(byte_name, int_arg, arguments, opoffset, line_number)
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d4ec6df..16a83f9 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -446,6 +446,9 @@ class Frame(object):
         # After a breakpoint is serviced, this opcode needs to be run.
         self.brkpt = {}
 
+        # The value of the EXTENDED_ARG prefixes which come before a breakpoint.
+        self.extended_arg = 0
+
         if f_back and f_back.f_globals is f_globals:
             # If we share the globals, we share the builtins.
             self.f_builtins = f_back.f_builtins
diff --git a/xpython/vm.py b/xpython/vm.py
index 8cfd2ed..cde3a64 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -505,7 +505,8 @@ class PyVM(object):
         f = self.frame
         f_code = f.f_code
         co_code = f_code.co_code
-        extended_arg = 0
+        # With replay, the prefixes of the instruction have been seen already.
+        extended_arg = f.extended_arg if replay else 0
 
         # Note: There is never more than one argument.
         # The list size is used to indicate whether an argument
@@ -540,6 +541,7 @@ class PyVM(object):
                     arg_offset += 1
                     if byte_code == self.opc.EXTENDED_ARG:
                         extended_arg = int_arg << 8
+                        replay = False
                         continue
                     else:
                         extended_arg = 0
@@ -552,6 +554,7 @@ class PyVM(object):
                     arg_offset += 2
                     if byte_code == self.opc.EXTENDED_ARG:
                         extended_arg = int_arg * 65536
+                        replay = False
                         continue
                     else:
                         extended_arg = 0
@@ -616,6 +619,7 @@ class PyVM(object):
                     arguments = [arg]
             break
 
+        f.extended_arg = extended_arg
         return bytecode_name, byte_code, int_arg, arguments, offset, line_number
 
     def log(self, bytecode_name, int_arg, arguments, offset, line_number):
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 8bb646f..9d27c39 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,6 +3,7 @@ This can be used in a debugger or profiler.
 """
 
 import logging
+from copy import copy
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
@@ -110,7 +111,11 @@ class PyVMTraced(PyVM):
         # Convert code to something we can change, then
         # Convert its bytecode bytes to a list, update the list and replace this back in
         # the code.
-        code = codeType2Portable(frame.f_code, self.version)
+        if offset in frame.brkpt:
+            # There is a breakpoint at that offset already.
+            return
+        # The code object itself can be shared with other frames.
+        code = copy(codeType2Portable(frame.f_code, self.version))
         frame.brkpt[offset] = code.co_code[offset]
         bytecode = list(code.co_code)
         bytecode[offset] = BREAKPOINT_OP
@@ -125,10 +130,11 @@ class PyVMTraced(PyVM):
         # Convert code to something we can change, then
         # Convert its bytecode ytes to a list, update the list and replace this back in
         # the code.
-        code = frame.f_code
+        code = copy(frame.f_code)
         bytecode = list(code.co_code)
-        bytecode[offset] = frame.brkpt[offset]
+        bytecode[offset] = frame.brkpt.pop(offset)
         code.co_code = bytes(bytecode)
+        frame.f_code = code
 
     # FIXME: put callback in f_trace, and update it accordingly
     # Interpreter main loop
@@ -191,6 +197,8 @@ class PyVMTraced(PyVM):
             # End extra tracing code #
         else:
             byte_code = byteint(frame.f_code.co_code[frame.f_lasti])
+            # The size of an instruction is that of the one under a breakpoint
+            byte_code = frame.brkpt.get(frame.f_lasti, byte_code)
             self.push_frame(frame)
             if frame.f_trace and frame.event_flags & PyVMEVENT_YIELD:
                 result = frame.f_trace(
@@ -281,6 +289,11 @@ class PyVMTraced(PyVM):
                     # Continue execution without tracing
                     frame.f_trace = None
 
+            if byte_code == BREAKPOINT_OP:
+                # What follows has to know the size of the instruction under
+                # the breakpoint. Note that the callback can remove the breakpoint.
+                byte_code = frame.brkpt[offset]
+
             # When unwinding the block stack, we need to keep track of why we
             # are doing it.
             why = self.dispatch(bytecode_name, int_arg, arguments, offset, line_number)
-- 
2.43.0


From 0b5c669e4dc909d6f4f49638fdf89c9a62a946d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 62/87] fix: SystemExit under tracing, and the frame of a call
 the callback ends

An uncaught SystemExit has to come out of a traced program as it does out
of one that is not traced. A call event answered by "return" left the
frame on the frame stack, and an exception in a frame that is not traced
any more called None.
---
 xpython/vmtrace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 9d27c39..b1ee361 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -220,6 +220,7 @@ class PyVMTraced(PyVM):
                 frame.f_trace = None
                 frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
             elif result == "return":
+                self.pop_frame()
                 return self.return_value
 
         self.frame.linestarts = dict(
@@ -333,7 +334,7 @@ class PyVMTraced(PyVM):
                 and frame
                 and (not frame or frame.event_flags & PyVMEVENT_EXCEPTION)
             ):
-                frame.f_trace(
+                callback(
                     "exception",
                     offset,
                     bytecode_name,
@@ -367,7 +368,7 @@ class PyVMTraced(PyVM):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if not self.frame:
+                if not self.frame and issubclass(last_exception[0], Exception):
                     raise PyVMUncaughtException.from_tuple(last_exception)
                 raise last_exception[1]
             else:
-- 
2.43.0


From ddbbea7754c3ed7dc1678350d3d36fa686281ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 63/87] fix: line events for lines that start with
 EXTENDED_ARG; generators start with a call event

---
 xpython/vm.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index cde3a64..ec5a7d2 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -417,11 +417,9 @@ class PyVM(object):
 
         # Make sure we advance to the next instruction after where we left off.
         if frame.f_lasti == -1:
-            # We are just starting out. Set offset to the first
-            # instruction, and signal that we should not increment
-            # this before fetching next instruction.
-            frame.fallthrough = False
-            frame.f_lasti = 0
+            # We are just starting out; eval_frame() sets the offset to the
+            # first instruction.
+            pass
         else:
             frame.fallthrough = True
 
@@ -515,6 +513,7 @@ class PyVM(object):
         # the argument exists.
         arguments = []
         int_arg = None
+        line_number = None
 
         while True:
             if f.fallthrough:
@@ -524,9 +523,10 @@ class PyVM(object):
                 # Jump instructions must set this False.
                 f.fallthrough = True
             offset = f.f_lasti
-            line_number = self.frame.linestarts.get(offset, None)
-            if line_number is not None:
-                f.f_lineno = line_number
+            starts_line = self.frame.linestarts.get(offset, None)
+            if starts_line is not None:
+                # Note that a line can start at the prefix of an instruction.
+                line_number = f.f_lineno = starts_line
             if not replay:
                 byte_code = byteint(co_code[offset])
             bytecode_name = self.opc.opname[byte_code]
-- 
2.43.0


From 83358a4a9c9e6975740517d388c2e83659d171c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 64/87] fix: the exit status of a program that runs with a
 callback

---
 xpython/execfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 0b1cc7d..72f1ddb 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -82,7 +82,7 @@ def exec_code_object(
             format_instruction_func=format_instruction,
         )
         try:
-            vm.run_code(code, f_globals=env)
+            rc = vm.run_code(code, f_globals=env)
         except PyVMUncaughtException:
             vm.last_exception = event_arg = (
                 vm.last_exception[0],
-- 
2.43.0


From b671ab9ef4ac86f1df8132f92293d911bae8d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 65/87] fix: the namespaces that exec, eval, locals, vars and
 dir work on

---
 xpython/byteop/byteop.py    | 80 +++++++++++++++++++++----------------
 xpython/byteop/byteop24.py  | 16 +++++---
 xpython/byteop/byteop311.py | 47 ++++++----------------
 3 files changed, 69 insertions(+), 74 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 20c3d0a..db457f1 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -162,6 +162,39 @@ class ByteOpBase(object):
         elts = self.vm.popn(count)
         self.vm.push(container_fn(elts))
 
+    def current_locals(self, frame) -> dict:
+        """
+        What locals() gives in that frame, which has the variables in cells too.
+        """
+        namespace = frame.f_locals
+        code = frame.f_code
+        if frame.cells and code.co_flags & inspect.CO_OPTIMIZED:
+            for name, cell in frame.cells.items():
+                if cell.is_empty():
+                    namespace.pop(name, None)
+                else:
+                    namespace[name] = cell.get()
+        return namespace
+
+    def fill_namespaces(self, name: str, pos_args: list) -> list:
+        """
+        Adds the namespaces that a call of exec() or eval() does not give. Without
+        globals, they are those of the frame, otherwise locals are the globals.
+        """
+        if not 1 <= len(pos_args) <= 3:
+            raise TypeError(
+                f"{name}() expected 1 to 3 positional arguments, got {len(pos_args)}"
+            )
+        source, globs, locs = (pos_args + [None, None])[:3]
+        frame = self.vm.frame
+        if globs is None:
+            globs = frame.f_globals
+            if locs is None:
+                locs = self.current_locals(frame)
+        elif locs is None:
+            locs = globs
+        return [source, globs, locs]
+
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
         # Extending the arguments below must not change the caller's list.
@@ -186,13 +219,19 @@ class ByteOpBase(object):
         # FIXME: put this in a separate routine.
         if inspect.isbuiltin(func):
             log.debug(f"handling built-in function {func.__name__}")
-            if func == globals:
+            if func == globals and not (pos_args or named_args):
                 # Use the frame's globals(), not the interpreter's
                 self.vm.push(frame.f_globals)
                 return
-            elif func == locals:
+            elif func == locals and not (pos_args or named_args):
                 # Use the frame's locals(), not the interpreter's
-                self.vm.push(frame.f_locals)
+                self.vm.push(self.current_locals(frame))
+                return
+            elif func == vars and not (pos_args or named_args):
+                self.vm.push(self.current_locals(frame))
+                return
+            elif func == dir and not (pos_args or named_args):
+                self.vm.push(sorted(self.current_locals(frame)))
                 return
 
             if func == compile:
@@ -213,27 +252,13 @@ class ByteOpBase(object):
             # and more reliable:
             #   func == exec
             elif func.__name__ == "exec":
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "exec() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                n = len(pos_args)
-                assert 1 <= n <= 3
-
-                # Note that in contrast to `eval()` handled below, if
-                # the `locals` parameter is not provided, the
-                # `globals` parameter value (whether provided or
-                # default value) is used for the `locals`
-                # parameter. So we shouldn't use the frame's `locals`.
-                if len(pos_args) == 1:
-                    pos_args.append(self.vm.frame.f_globals)
+                pos_args = self.fill_namespaces("exec", pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
                     source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, bytes):
+                    if isinstance(source, (str, bytes)):
                         try:
                             pos_args[0] = compile(
                                 source, "<string>", mode="exec", dont_inherit=True
@@ -256,26 +281,13 @@ class ByteOpBase(object):
                         self.cross_bytecode_exec_warning_shown = True
 
             elif func == eval:
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "eval() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                assert 1 <= len(pos_args) <= 3
-                # Use the frame's globals(), not the interpreter's
-                n = len(pos_args)
-                if n < 2:
-                    pos_args.append(self.vm.frame.f_globals)
-                # Likewise for locals()
-                if n < 3:
-                    pos_args.append(self.vm.frame.f_locals)
-                assert len(pos_args) == 3
+                pos_args = self.fill_namespaces("eval", pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
                     source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, unicode):
+                    if isinstance(source, (str, bytes)):
                         try:
                             pos_args[0] = compile(
                                 source, "<string>", mode="eval", dont_inherit=True
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 64d483e..deb4928 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -354,12 +354,16 @@ class ByteOp24(ByteOpBase):
         """
         stmt, globs, locs = self.vm.popn(3)
 
-        # if `locals` or `globals` is None, use the frame equivalent.
-        if globs is None:
-            globs = self.vm.frame.f_globals
-        if locs is None:
-            locs = self.vm.frame.f_locals
-        exec(stmt, globs, locs)
+        # The namespaces can also be given in a tuple.
+        if (
+            globs is None
+            and locs is None
+            and isinstance(stmt, tuple)
+            and len(stmt) in (2, 3)
+        ):
+            exec(*self.fill_namespaces("exec", list(stmt)))
+        else:
+            exec(*self.fill_namespaces("exec", [stmt, globs, locs]))
 
     def POP_BLOCK(self):
         """
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 3c01433..7d13cf6 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -75,13 +75,19 @@ class ByteOp311(ByteOp310):
         # FIXME: put this in a separate routine.
         if inspect.isbuiltin(func):
             log.debug(f"handling built-in function {func.__name__}")
-            if func == globals:
+            if func == globals and not (pos_args or named_args):
                 # Use the frame's globals(), not the interpreter's
                 self.vm.push(frame.f_globals)
                 return
-            elif func == locals:
+            elif func == locals and not (pos_args or named_args):
                 # Use the frame's locals(), not the interpreter's
-                self.vm.push(frame.f_locals)
+                self.vm.push(self.current_locals(frame))
+                return
+            elif func == vars and not (pos_args or named_args):
+                self.vm.push(self.current_locals(frame))
+                return
+            elif func == dir and not (pos_args or named_args):
+                self.vm.push(sorted(self.current_locals(frame)))
                 return
 
             if func == compile:
@@ -92,27 +98,13 @@ class ByteOp311(ByteOp310):
                     named_args["dont_inherit"] = True
                     pass
             elif func.__name__ == "exec":
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "exec() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                n = len(pos_args)
-                assert 1 <= n <= 3
-
-                # Note that in contrast to `eval()` handled below, if
-                # the `locals` parameter is not provided, the
-                # `globals` parameter value (whether provided or
-                # default value) is used for the `locals`
-                # parameter. So we shouldn't use the frame's `locals`.
-                if len(pos_args) == 1:
-                    pos_args.append(self.vm.frame.f_globals)
+                pos_args = self.fill_namespaces("exec", pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
                     source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, bytes):
+                    if isinstance(source, (str, bytes)):
                         try:
                             pos_args[0] = compile(
                                 source, "<string>", mode="exec", dont_inherit=True
@@ -135,26 +127,13 @@ class ByteOp311(ByteOp310):
                         self.cross_bytecode_exec_warning_shown = True
 
             elif func == eval:
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "eval() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                assert 1 <= len(pos_args) <= 3
-                # Use the frame's globals(), not the interpreter's
-                n = len(pos_args)
-                if n < 2:
-                    pos_args.append(self.vm.frame.f_globals)
-                # Likewise for locals()
-                if n < 3:
-                    pos_args.append(self.vm.frame.f_locals)
-                assert len(pos_args) == 3
+                pos_args = self.fill_namespaces("eval", pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
                     source = pos_args[0]
-                    if isinstance(source, str):
+                    if isinstance(source, (str, bytes)):
                         try:
                             pos_args[0] = compile(
                                 source, "<string>", mode="eval", dont_inherit=True
-- 
2.43.0


From 1585fda74940ea2fdd95996f14b266dcda3b0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 66/87] fix: import-from, import *, 2.5 relative imports, and
 sys.exc_info in 3.x handlers

---
 xpython/byteop/byteop.py   | 19 +++++++-------
 xpython/byteop/byteop24.py | 51 ++++++++++++++++++++++++++------------
 xpython/byteop/byteop25.py |  6 ++---
 3 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index db457f1..e780513 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -140,6 +140,9 @@ class ByteOpBase(object):
         for op in INPLACE_OPERATORS:
             self.stack_fmt["INPLACE_" + op] = fmt_binary_op
 
+        # The sys module of the interpreted program; it is set lazily.
+        self.sys_module = None
+
         # Set this lazily in "convert_method_native_func
         self.method_func_access = None
         self.cross_bytecode_eval_warning_shown = False
@@ -590,16 +593,12 @@ class ByteOpBase(object):
         interpreter we are simulating.
         """
 
-        if "sys" not in self.vm.frame.f_globals:
-            sys_module = copy_module(sys)
-            self.vm.frame.f_globals["sys"] = sys_module
-
-            sys_module.hexversion = self.hexversion
-            sys_module.version_info = self.version_info
-            sys_module.exc_info = self.exc_info
-        else:
-            sys_module = self.vm.frame.f_globals["sys"]
-        return sys_module
+        if self.sys_module is None:
+            self.sys_module = copy_module(sys)
+            self.sys_module.hexversion = self.hexversion
+            self.sys_module.version_info = self.version_info
+            self.sys_module.exc_info = self.exc_info
+        return self.sys_module
 
     def unaryOperator(self, op):
         x = self.vm.pop()
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index deb4928..c088d2a 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -142,7 +142,9 @@ class ByteOp24(ByteOpBase):
         """
         Python 2.4ish style sys.exc_info() function.
         """
-        return self.vm.last_exception
+        if (3, 0) <= self.version_info[:2] < (3, 11):
+            return self.vm.handled_exception
+        return self.vm.last_exception or (None, None, None)
 
     def fmt_unary_op(vm: PyVM, _=None):
         """
@@ -341,9 +343,14 @@ class ByteOp24(ByteOpBase):
         names. This opcode implements from module import *.
         """
         mod = self.vm.pop()
-        names = getattr(mod, "__all__", None)
-        if names is None:
-            names = [attr for attr in dir(mod) if attr[0] != "_"]
+        try:
+            names = mod.__all__
+        except AttributeError:
+            try:
+                names = mod.__dict__
+            except AttributeError:
+                raise ImportError("from-import-* object has no __dict__ and no __all__")
+            names = [attr for attr in names if not attr.startswith("_")]
         for attr in names:
             self.vm.frame.f_locals[attr] = getattr(mod, attr)
 
@@ -584,11 +591,14 @@ class ByteOp24(ByteOpBase):
 
         Changed in 2.5
         """
-        fromlist = self.vm.pop()
+        self.import_module(name, self.vm.pop(), level=0)
+
+    def import_module(self, name, fromlist, level):
+        """Pushes what __import__() gives for that name, fromlist and level."""
         frame = self.vm.frame
 
         module = import_fn(
-            name, frame.f_globals, frame.f_locals, fromlist=fromlist, level=0
+            name, frame.f_globals, frame.f_locals, fromlist=fromlist, level=level
         )
 
         if module is sys:
@@ -605,19 +615,28 @@ class ByteOp24(ByteOpBase):
         Note: name = co_names[namei] set in parse_byte_and_args()
         """
         mod = self.vm.top
-        if not hasattr(mod, name):
-            if not hasattr(mod, "__file__"):
-                # Builtins don't have a __file__ attribute
-                value = ImportError(f"cannot import name '{name}' from '{mod.__name__}")
+        try:
+            value = getattr(mod, name)
+        except AttributeError:
+            mod_name = getattr(mod, "__name__", None)
+            # From 3.5 on, a module that is still being imported is found
+            # even when it is not an attribute of its package yet.
+            if (
+                self.version_info[:2] >= (3, 5)
+                and f"{mod_name}.{name}" in sys.modules
+            ):
+                value = sys.modules[f"{mod_name}.{name}"]
             else:
-                value = ImportError(
-                    f"cannot import name '{name}' from '{mod.__name__} ({mod.__file__}"
+                # Builtins don't have a __file__ attribute
+                path = getattr(mod, "__file__", None)
+                where = f"'{mod_name}'" + (f" ({path})" if path else "")
+                raise ImportError(
+                    f"cannot import name '{name}' from {where}",
+                    name=mod_name,
+                    path=path,
                 )
 
-            self.vm.last_exception = (ImportError, value, None)
-            return "exception"
-
-        self.vm.push(getattr(mod, name))
+        self.vm.push(value)
 
     # Jumps
 
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 79ead7e..0516260 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -17,10 +17,8 @@ class ByteOp25(ByteOp24):
         """Like 2.4, but TOS1, the level argument of __import__(), is popped too.
         A level of -1 is taken to be an absolute import, as it is in 2.6.
         """
-        fromlist = self.vm.pop()
-        self.vm.pop()  # level
-        self.vm.push(fromlist)
-        super().IMPORT_NAME(name)
+        level, fromlist = self.vm.popn(2)
+        self.import_module(name, fromlist, max(level, 0))
 
     # New in Python 2.5 but changes in 3.3.
     def WITH_CLEANUP(self):
-- 
2.43.0


From 98b7ee1e6a02da63ed8e14d31248ee984035fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 67/87] fix: running a module or a command string from the
 command line

---
 xpython/__main__.py |  1 +
 xpython/execfile.py | 68 ++++++++++++++++++---------------------------
 2 files changed, 28 insertions(+), 41 deletions(-)

diff --git a/xpython/__main__.py b/xpython/__main__.py
index 52b5193..21bcb61 100644
--- a/xpython/__main__.py
+++ b/xpython/__main__.py
@@ -22,6 +22,7 @@ def version_message() -> str:
 @click.option(
     "-m",
     "--module",
+    is_flag=True,
     default=False,
     help="PATH is a module name, not a Python main program",
 )
diff --git a/xpython/execfile.py b/xpython/execfile.py
index 72f1ddb..9099b38 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -122,57 +122,39 @@ except KeyError:
     BUILTINS = sys.modules["builtins"]
 
 
-def rsplit1(s, sep):
-    """The same as s.rsplit(sep, 1), but works in 2.3"""
-    parts = s.split(sep)
-    return sep.join(parts[:-1]), parts[-1]
-
-
 def run_python_module(modulename, args):
     """Run a python module, as though with ``python -m name args...``.
 
     `modulename` is the name of the module, possibly a dot-separated name.
-    `args` is the argument array to present as sys.argv, including the first
+    `args` is the argument array to present as the rest of sys.argv, after the
     element naming the module being executed.
 
     """
-    openfile = None
-    glo, loc = globals(), locals()
+    # Search for the module - inside its parent package, if any - using
+    # standard import mechanics, from the current directory on.
+    old_path0 = sys.path[0]
+    sys.path[0] = ""
     try:
         try:
-            # Search for the module - inside its parent package, if any - using
-            # standard import mechanics.
-            if "." in modulename:
-                packagename, name = rsplit1(modulename, ".")
-                package = __import__(packagename, glo, loc, ["__path__"])
-                searchpath = package.__path__
-            else:
-                packagename, name = None, modulename
-                searchpath = None  # "top-level search" in imp.find_module()
-            openfile, pathname, _ = find_module(name, searchpath)
-
-            # Complain if this is a magic non-file module.
-            if openfile is None and pathname is None:
-                raise NoSourceError(f"module does not live in a file: {modulename!r}")
-
-            # If `modulename` is actually a package, not a mere module, then we
-            # pretend to be Python 2.7 and try running its __main__.py script.
-            if openfile is None:
-                packagename = modulename
-                name = "__main__"
-                package = __import__(packagename, glo, loc, ["__path__"])
-                searchpath = package.__path__
-                openfile, pathname, _ = find_module(name, searchpath)
-        except ImportError:
-            _, err, _ = sys.exc_info()
-            raise NoSourceError(str(err))
+            spec = find_module(modulename)
+            # If `modulename` is actually a package, not a mere module, then
+            # we run its __main__ module.
+            if spec is not None and spec.submodule_search_locations is not None:
+                modulename += ".__main__"
+                spec = find_module(modulename)
+        except (ImportError, ValueError) as e:
+            raise NoSourceError(str(e))
     finally:
-        if openfile:
-            openfile.close()
+        sys.path[0] = old_path0
+
+    if spec is None:
+        raise NoSourceError(f"No module named {modulename!r}")
+    # Complain if this is a magic non-file module.
+    if not spec.has_location:
+        raise NoSourceError(f"module does not live in a file: {modulename!r}")
 
     # Finally, hand the file off to run_python_file for execution.
-    args[0] = pathname
-    run_python_file(pathname, args, package=packagename)
+    run_python_file(spec.origin, args, package=spec.parent)
 
 
 def run_python_file(
@@ -309,6 +291,7 @@ def run_python_string(
     main_mod.__builtins__ = BUILTINS
 
     # Set sys.argv and the first path element properly.
+    old_argv = sys.argv
     old_path0 = sys.path[0]
     sys.argv = [fake_path] + list(args)
 
@@ -328,11 +311,11 @@ def run_python_string(
         python_version = PYTHON_VERSION_TRIPLE
 
         # Execute the source string.
-        exec_code_object(
+        rc = exec_code_object(
             code,
             main_mod.__dict__,
             python_version,
-            IS_PYPY,
+            PYTHON_IMPLEMENTATION,
             callback,
             format_instruction=format_instruction,
         )
@@ -342,8 +325,11 @@ def run_python_string(
         sys.modules["__main__"] = old_main_mod
 
         # Restore the old argv and path
+        sys.argv = old_argv
         sys.path[0] = old_path0
 
+    sys.exit(rc)
+
 
 if __name__ == "__main__":
     if len(sys.argv) < 2:
-- 
2.43.0


From 1ca817e698b3a5b1e130431d603ee04145c0c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 68/87] fix: an opcode dropped in one version's byteop class
 vanished from the others' VMs

---
 xpython/byteop/byteop27.py |  9 +++++----
 xpython/byteop/byteop31.py | 12 ++++--------
 xpython/byteop/byteop32.py | 28 ++++++++++++++--------------
 xpython/byteop/byteop34.py |  7 +++----
 xpython/byteop/byteop35.py | 10 +++++-----
 xpython/byteop/byteop36.py | 14 +++++---------
 xpython/byteop/byteop37.py | 24 ++++++++++--------------
 xpython/byteop/byteop38.py | 14 +++++++-------
 xpython/byteop/byteop39.py | 29 +++++++++++++----------------
 9 files changed, 66 insertions(+), 81 deletions(-)

diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index c22b3c9..ed04b4e 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -5,12 +5,9 @@ import types
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop26 import ByteOp26
 
-# Gone since 2.6
-del ByteOp24.JUMP_IF_FALSE
-del ByteOp24.JUMP_IF_TRUE
 
 
 def fmt_set_add(vm, arg, repr_fn=repr):
@@ -26,6 +23,10 @@ def fmt_map_add(vm, arg, repr_fn=repr):
 
 
 class ByteOp27(ByteOp26):
+    # Gone since 2.6
+    JUMP_IF_FALSE = None
+    JUMP_IF_TRUE = None
+
     def __init__(self, vm):
         super(ByteOp27, self).__init__(vm)
         self.stack_fmt["SET_ADD"] = fmt_set_add
diff --git a/xpython/byteop/byteop31.py b/xpython/byteop/byteop31.py
index 15486ed..712bbbb 100644
--- a/xpython/byteop/byteop31.py
+++ b/xpython/byteop/byteop31.py
@@ -4,16 +4,12 @@
 from xpython.byteop.byteop32 import ByteOp32, Version_info
 # from xpython.byteop.byteop26 import ByteOp26
 
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.0 that may want to inherit from this module.
-
-# Added 3.2 but not in 3.1
-del ByteOp32.DUP_TOP_TWO
-del ByteOp32.DELETE_DEREF
-# del ByteOp32.SETUP_WITH
-
 
 class ByteOp31(ByteOp32):
+    # Added 3.2 but not in 3.1
+    DUP_TOP_TWO = None
+    DELETE_DEREF = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.version = "3.1.5 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 7325610..161abf8 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -4,25 +4,12 @@
 import inspect
 
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Cell, Function
 
-# Gone since 3.0
-del ByteOp24.PRINT_EXPR
-del ByteOp24.PRINT_ITEM
-del ByteOp24.PRINT_ITEM_TO
-del ByteOp24.PRINT_NEWLINE
-del ByteOp24.PRINT_NEWLINE_TO
-del ByteOp24.BUILD_CLASS
-del ByteOp24.EXEC_STMT
-del ByteOp24.RAISE_VARARGS
 
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.1 that may want to inherit from this module.
 
-# Gone since 3.2
-del ByteOp24.DUP_TOPX
 
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
@@ -37,6 +24,19 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
 
 
 class ByteOp32(ByteOp27):
+    # Gone since 3.0
+    PRINT_EXPR = None
+    PRINT_ITEM = None
+    PRINT_ITEM_TO = None
+    PRINT_NEWLINE = None
+    PRINT_NEWLINE_TO = None
+    BUILD_CLASS = None
+    EXEC_STMT = None
+    RAISE_VARARGS = None
+
+    # Gone since 3.2
+    DUP_TOPX = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.stack_fmt["MAKE_FUNCTION"] = fmt_make_function
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index c3edcba..ad15fcf 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -8,15 +8,14 @@ from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xdis.version_info import IS_PYPY, PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
-from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop33 import ByteOp33
 from xpython.pyobj import Function
 
-# Gone since 3.3
-del ByteOp32.STORE_LOCALS
-
 
 class ByteOp34(ByteOp33):
+    # Gone since 3.3
+    STORE_LOCALS = None
+
     def __init__(self, vm):
         super(ByteOp34, self).__init__(vm)
         self.version = "3.4.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index c6a3ed9..a59ec0b 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -1,13 +1,9 @@
 """Bytecode Interpreter operations for Python 3.5
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
-from xpython.byteop.byteop32 import ByteOp32
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop34 import ByteOp34
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
 
-# Gone in 3.5
-del ByteOp24.STORE_MAP
-del ByteOp32.WITH_CLEANUP
 
 
 def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
@@ -24,6 +20,10 @@ def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
 
 
 class ByteOp35(ByteOp34):
+    # Gone in 3.5
+    STORE_MAP = None
+    WITH_CLEANUP = None
+
     def __init__(self, vm):
         super(ByteOp35, self).__init__(vm)
         self.stack_fmt["BUILD_MAP_UNPACK_WITH_CALL"] = fmt_build_map_unpack_with_call
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index e590b74..4dae16d 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -9,18 +9,14 @@ import inspect
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.pyobj import Function
 
-# Gone in 3.6
-del ByteOp24.MAKE_CLOSURE
-del ByteOp24.CALL_FUNCTION_VAR
-
-# Even though Python 3.6 loses CALL_FUNCTION_VAR_KW, PyPy retains this for 3.6.
-# However, it is gone in 3.7. So we will keep this around for one more version than
-# would be needed if we were doing strictly CPython 3.6
-# del ByteOp24.CALL_FUNCTION_VAR_KW
+# Even though Python 3.6 loses MAKE_CLOSURE, CALL_FUNCTION_VAR, and
+# CALL_FUNCTION_VAR_KW, PyPy retains these for 3.6. However, they are gone in
+# 3.7. So we will keep them around for one more version than would be needed if
+# we were doing strictly CPython 3.6
 
 # Note the order is important. The TOS is listed *last*.
 MAKE_FUNCTION_SLOT_NAMES = ("closure", "annotations", "kwdefaults", "defaults")
diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 75f68ca..eb96e55 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -1,21 +1,8 @@
 """Bytecode Interpreter operations for Python 3.7
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop36 import ByteOp36
 
-# Gone in 3.7
-del ByteOp36.STORE_ANNOTATION
-
-# Gone in 3.6 PyPy (and therefore we kept it in 3.6 Python)
-del ByteOp24.CALL_FUNCTION_VAR_KW
-
-# del ByteOp36.WITH_CLEANUP_START
-# del ByteOp36.WITH_CLEANUP_FINISH
-# del ByteOp36.END_FINALLY
-# del ByteOp36.POP_EXCEPT
-# del ByteOp36.SETUP_WITH
-# del ByteOp36.SETUP_ASYNC_WITH
-
 
 # pylint: disable=too-few-public-methods
 class NullClass:
@@ -39,6 +26,15 @@ class ByteOp37(ByteOp36):
     """
     Python 3.7 opcodes
     """
+
+    # Gone in 3.7
+    STORE_ANNOTATION = None
+
+    # Gone in 3.6 PyPy (and therefore we kept it in 3.6 Python)
+    MAKE_CLOSURE = None
+    CALL_FUNCTION_VAR = None
+    CALL_FUNCTION_VAR_KW = None
+
     def __init__(self, vm):
         super().__init__(vm)
 
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index bd2ade3..34c6bba 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -8,17 +8,17 @@
 """
 from xdis import next_offset
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop37 import ByteOp37
 
-# Gone in 3.8
-del ByteOp24.BREAK_LOOP
-del ByteOp24.CONTINUE_LOOP
-del ByteOp24.SETUP_LOOP
-del ByteOp24.SETUP_EXCEPT
-
 
 class ByteOp38(ByteOp37):
+    # Gone in 3.8
+    BREAK_LOOP = None
+    CONTINUE_LOOP = None
+    SETUP_LOOP = None
+    SETUP_EXCEPT = None
+
     def __init__(self, vm):
         super(ByteOp38, self).__init__(vm)
 
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 404fca1..fa4099d 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -7,26 +7,23 @@
 
 """Bytecode Interpreter operations for Python 3.9
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
-from xpython.byteop.byteop35 import ByteOp35
-from xpython.byteop.byteop36 import ByteOp36
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop38 import ByteOp38
 
-# Gone in 3.8
-del ByteOp24.END_FINALLY
-del ByteOp35.BUILD_LIST_UNPACK
-del ByteOp35.BUILD_MAP_UNPACK
-del ByteOp35.BUILD_SET_UNPACK
-del ByteOp35.BUILD_TUPLE_UNPACK
-del ByteOp35.WITH_CLEANUP_FINISH
-del ByteOp38.WITH_CLEANUP_FINISH
-del ByteOp35.WITH_CLEANUP_START
-del ByteOp36.BUILD_MAP_UNPACK_WITH_CALL
-del ByteOp38.CALL_FINALLY
-del ByteOp38.POP_FINALLY
-
 
 class ByteOp39(ByteOp38):
+    # Gone in 3.8
+    END_FINALLY = None
+    BUILD_LIST_UNPACK = None
+    BUILD_MAP_UNPACK = None
+    BUILD_SET_UNPACK = None
+    BUILD_TUPLE_UNPACK = None
+    WITH_CLEANUP_FINISH = None
+    WITH_CLEANUP_START = None
+    BUILD_MAP_UNPACK_WITH_CALL = None
+    CALL_FINALLY = None
+    POP_FINALLY = None
+
     def __init__(self, vm) -> None:
         super(ByteOp38, self).__init__(vm)
         self.hexversion = 0x30907F0
-- 
2.43.0


From 3faa7522285f5037b084d656cc5ae4ca227b2c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 69/87] fix: sys.path is restored after running a program

---
 xpython/execfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 9099b38..1cf0120 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -182,7 +182,7 @@ def run_python_file(
 
     # set sys.argv and the first path element properly.
     old_argv = sys.argv
-    old_path0 = sys.path[0]
+    old_path = list(sys.path)
 
     # note: the type of args is na tuple; we want type(sys.argv) == list
     sys.argv = [filename] + list(args)
@@ -272,7 +272,7 @@ def run_python_file(
 
         # Restore the old argv and path
         sys.argv = old_argv
-        sys.path[0] = old_path0
+        sys.path[:] = old_path
 
     sys.exit(rc)
 
@@ -292,7 +292,7 @@ def run_python_string(
 
     # Set sys.argv and the first path element properly.
     old_argv = sys.argv
-    old_path0 = sys.path[0]
+    old_path = list(sys.path)
     sys.argv = [fake_path] + list(args)
 
     try:
@@ -326,7 +326,7 @@ def run_python_string(
 
         # Restore the old argv and path
         sys.argv = old_argv
-        sys.path[0] = old_path0
+        sys.path[:] = old_path
 
     sys.exit(rc)
 
-- 
2.43.0


From bf62990fe62499d29539e201b7f5fd676a5c1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 70/87] fix: bytecode files that are damaged, hold no code, or
 are of another implementation are refused

---
 xpython/execfile.py | 49 +++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 1cf0120..3a1fc65 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -103,7 +103,10 @@ def exec_code_object(
 
 
 def get_supported_versions(is_pypy, is_bytecode):
-    if is_bytecode:
+    if is_bytecode and is_pypy:
+        supported_versions = SUPPORTED_PYPY
+        mess = "PYPY 2.7, 3.2, 3.5 .. 3.9"
+    elif is_bytecode:
         supported_versions = SUPPORTED_BYTECODE
         mess = "Python 2.4 .. 2.7, 3.1 .. 3.12"
     else:
@@ -198,24 +201,40 @@ def run_python_file(
         try:
             mime = mimetypes.guess_type(filename)
             if mime == ("application/x-python-code", None):
-                (
-                    python_version,
-                    timestamp,
-                    magic_int,
-                    code,
-                    python_implementation,
-                    source_size,
-                    sip_hash,
-                    _
-                ) = load_module(filename)
+                try:
+                    (
+                        python_version,
+                        timestamp,
+                        magic_int,
+                        code,
+                        python_implementation,
+                        source_size,
+                        sip_hash,
+                        _
+                    ) = load_module(filename)
+                except Exception:
+                    # The header or the code in the file is damaged
+                    raise NoSourceError(f"No file to run: {filename!r}")
                 supported_versions, mess = get_supported_versions(
-                    python_implementation, is_bytecode=True
+                    python_implementation is PythonImplementation.PyPy,
+                    is_bytecode=True,
                 )
-                if python_version[:2] not in supported_versions:
+                if (
+                    python_version[:2] not in supported_versions
+                    or python_implementation
+                    not in (PythonImplementation.CPython, PythonImplementation.PyPy)
+                ):
                     raise WrongBytecodeError(
-                        "We only support byte code for %s: %r is %s bytecode"
-                        % (mess, filename, version_tuple_to_str(python_version))
+                        "We only support byte code for %s: %r is %s %s bytecode"
+                        % (
+                            mess,
+                            filename,
+                            python_implementation,
+                            version_tuple_to_str(python_version),
+                        )
                     )
+                if not hasattr(code, "co_code"):
+                    raise NoSourceError(f"No file to run: {filename!r}")
                 main_mod.__file__ = code.co_filename
                 make_compatible_builtins(main_mod.__builtins__.__dict__, python_version)
 
-- 
2.43.0


From 30481674ff135e15e35a00185be5db81df4dbd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 71/87] fix: exceptions of an earlier program on the same VM,
 and of functions called after the run

---
 xpython/vm.py      | 13 ++++++++++++-
 xpython/vmtrace.py |  4 +++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index ec5a7d2..8e33e0b 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -147,6 +147,8 @@ class PyVM(object):
         self.frames: List[Frame] = []
         # The current frame.
         self.frame = None
+        # The frame of the program that run_code() runs.
+        self.main_frame = None
         self.return_value = None
         self.last_exception = None
         self.last_traceback_limit = None
@@ -441,7 +443,14 @@ class PyVM(object):
         is the value from the last RETURN_VALUE or RETURN_CONST instruction.
         This matters when this is called to interpret eval().
         """
+        if toplevel and not self.frames:
+            # Forget about the exceptions of a program that ran before.
+            self.last_exception = self.last_traceback = None
+            self.handled_exception = (None, None, None)
+
         frame = self.make_frame(code, f_globals=f_globals, f_locals=f_locals)
+        if not self.frames:
+            self.main_frame = frame
         try:
             self.eval_frame(frame)
         except PyVMUncaughtException:
@@ -936,7 +945,9 @@ class PyVM(object):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if not self.frame and issubclass(last_exception[0], Exception):
+                if frame is self.main_frame and issubclass(
+                    last_exception[0], Exception
+                ):
                     raise PyVMUncaughtException.from_tuple(last_exception)
                 raise last_exception[1]
             else:
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index b1ee361..f6b5fd8 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -368,7 +368,9 @@ class PyVMTraced(PyVM):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if not self.frame and issubclass(last_exception[0], Exception):
+                if frame is self.main_frame and issubclass(
+                    last_exception[0], Exception
+                ):
                     raise PyVMUncaughtException.from_tuple(last_exception)
                 raise last_exception[1]
             else:
-- 
2.43.0


From 5c8d152a3a9c3a0a2818419a7348c1d4638fc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 72/87] fix: builtin functions of older versions stay in the
 host, and apply, cmp, coerce, execfile

---
 xpython/byteop/byteop.py   |  4 +++
 xpython/execfile.py        | 51 ++++++++++++++++++++------------------
 xpython/stdlib/builtins.py | 26 +++++++++++++------
 3 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index e780513..41de14d 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -19,6 +19,7 @@ from xpython.builtins import (
     builtin_super,
 )
 from xpython.pyobj import Function, Method, copy_module
+from xpython.stdlib.builtins import execfile
 from xpython.vm import PyVM
 
 
@@ -219,6 +220,9 @@ class ByteOpBase(object):
                 )
             func = func.im_func
 
+        if func is execfile:
+            pos_args = self.fill_namespaces("execfile", pos_args)
+
         # FIXME: put this in a separate routine.
         if inspect.isbuiltin(func):
             log.debug(f"handling built-in function {func.__name__}")
diff --git a/xpython/execfile.py b/xpython/execfile.py
index 3a1fc65..95dc635 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -74,30 +74,34 @@ def exec_code_object(
     format_instruction=format_instruction,
 ) -> int:
     rc = 0
-    if callback:
-        vm = PyVMTraced(
-            callback,
-            python_version,
-            python_implementation,
-            format_instruction_func=format_instruction,
-        )
-        try:
-            rc = vm.run_code(code, f_globals=env)
-        except PyVMUncaughtException:
-            vm.last_exception = event_arg = (
-                vm.last_exception[0],
-                vm.last_exception[1],
-                vm.last_traceback,
+    # The builtin functions of that version are there while its code runs.
+    added = make_compatible_builtins(BUILTINS.__dict__, python_version)
+    try:
+        if callback:
+            vm = PyVMTraced(
+                callback,
+                python_version,
+                python_implementation,
+                format_instruction_func=format_instruction,
             )
-            callback("fatal", 0, "fatalOpcode", 0, -1, event_arg, [], vm)
-    else:
-        if python_version != PYTHON_VERSION_TRIPLE[:2]:
-            make_compatible_builtins(BUILTINS.__dict__, python_version)
-        vm = PyVM(python_version, python_implementation, format_instruction_func=format_instruction)
-        try:
-            rc = vm.run_code(code, f_globals=env)
-        except PyVMUncaughtException:
-            pass
+            try:
+                rc = vm.run_code(code, f_globals=env)
+            except PyVMUncaughtException:
+                vm.last_exception = event_arg = (
+                    vm.last_exception[0],
+                    vm.last_exception[1],
+                    vm.last_traceback,
+                )
+                callback("fatal", 0, "fatalOpcode", 0, -1, event_arg, [], vm)
+        else:
+            vm = PyVM(python_version, python_implementation, format_instruction_func=format_instruction)
+            try:
+                rc = vm.run_code(code, f_globals=env)
+            except PyVMUncaughtException:
+                pass
+    finally:
+        for name in added:
+            BUILTINS.__dict__.pop(name, None)
 
     return rc
 
@@ -236,7 +240,6 @@ def run_python_file(
                 if not hasattr(code, "co_code"):
                     raise NoSourceError(f"No file to run: {filename!r}")
                 main_mod.__file__ = code.co_filename
-                make_compatible_builtins(main_mod.__builtins__.__dict__, python_version)
 
                 if source_is_older(code.co_filename, filename):
                     print(
diff --git a/xpython/stdlib/builtins.py b/xpython/stdlib/builtins.py
index 64e9dc1..994b694 100644
--- a/xpython/stdlib/builtins.py
+++ b/xpython/stdlib/builtins.py
@@ -17,14 +17,17 @@ from io import open
 from sys import intern
 
 
-def make_compatible_builtins(builtins: dict, target_python: tuple) -> None:
+def make_compatible_builtins(builtins: dict, target_python: tuple) -> set:
     """
     Add functions in builtins dictionary with functions that do the same
     thing.
 
     This is needed when doing cross-bytecode interpretation
     because the list of builtin functions varies between different Python versions.
+
+    The names that were added are returned.
     """
+    added = set()
     if type(target_python) is not tuple:
         target_python = (int(str(target_python)[0]), int(str(target_python)[2]))
     short_name = f"builtins_{target_python[0]}{target_python[1]}"
@@ -32,7 +35,7 @@ def make_compatible_builtins(builtins: dict, target_python: tuple) -> None:
     try:
         module_root = import_fn(import_name)
     except Exception:
-        return
+        return added
     if hasattr(module_root, "stdlib"):
         stdlib_mod = getattr(module_root, "stdlib")
         if hasattr(stdlib_mod, short_name):
@@ -42,6 +45,7 @@ def make_compatible_builtins(builtins: dict, target_python: tuple) -> None:
                 if builtin_name in compatable_fns:
                     # print("XXX", builtin_name)
                     builtins[builtin_name] = compatable_fns[builtin_name]
+                    added.add(builtin_name)
                 else:
                     print(
                         "FIXME: add %s-compatible builtin function for %s from Python %s"
@@ -51,9 +55,10 @@ def make_compatible_builtins(builtins: dict, target_python: tuple) -> None:
                             PYTHON_VERSION_TRIPLE[:2],
                         )
                     )
+    return added
 
 
-def apply(f: Callable, args=None, kwargs=None) -> Any:
+def apply(f: Callable, args=(), kwargs={}) -> Any:
     """
     Python 1-2.x apply for Python 3.x
     """
@@ -71,6 +76,8 @@ def cmp(x, y) -> int:
     """
     Python 1-2.x cmp (compare) for Python 3.x
     """
+    if x == y:
+        return 0
     return (x > y) - (x < y)
 
 
@@ -85,16 +92,21 @@ def coerce(x, y) -> tuple:
         raise TypeError("number coercion failed")
     if not isinstance(y, numeric_types):
         raise TypeError("number coercion failed")
-        raise TypeError
-    # Leave unchanged and other operations do the coercion
+    for common_type in (complex, float):
+        if isinstance(x, common_type) or isinstance(y, common_type):
+            return tuple(
+                z if isinstance(z, common_type) else common_type(z) for z in (x, y)
+            )
     return x, y
 
 
-def execfile(path: str) -> None:
+def execfile(path: str, globals=None, locals=None) -> None:
     """
     Python 1-2.x execfile for Python 3.x
     """
-    exec(compile(open(path).read()))
+    with open(path) as f:
+        source = f.read()
+    exec(compile(source, path, "exec", dont_inherit=True), globals, locals)
 
 
 class OverflowWarning(RuntimeError):
-- 
2.43.0


From b6071a996875ee0fdb3fb76eaaea6b62842f1aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 73/87] fix: tracebacks showed only the outermost frame, and
 handled exceptions of exec and eval were printed

---
 xpython/byteop/byteop24.py | 10 +---------
 xpython/byteop/byteop39.py |  2 +-
 xpython/pyobj.py           | 31 ++++++++++++++++---------------
 xpython/vm.py              | 24 ++++++++----------------
 xpython/vmtrace.py         |  5 +++--
 5 files changed, 29 insertions(+), 43 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index c088d2a..736a9ec 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -8,7 +8,6 @@ import logging
 import operator
 import sys
 from collections import namedtuple
-from copy import copy
 from itertools import islice
 from typing import Any, Optional
 
@@ -153,14 +152,7 @@ class ByteOp24(ByteOpBase):
         return f" ({vm.peek(1)})"
 
     def traceback_from_frame(self):
-        frame = self.vm.frame
-        tb = None
-
-        while frame:
-            next_tb = Traceback24(copy(frame))
-            tb = next_tb
-            frame = frame.f_back
-        return tb
+        return Traceback24(self.vm.frame)
 
     def BRKPT(self) -> Optional[Any]:
         """Pseudo opcode: breakpoint. We added this. TODO: call callback, then run
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index fa4099d..7149759 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -63,7 +63,7 @@ class ByteOp39(ByteOp38):
         # All we need to do here is note an exception return.
         for _ in range(oparg, 0, -1):
             self.vm.frame.block_stack.pop()
-        return "exception"
+        return "reraise"
 
     def WITH_EXCEPT_START(self) -> None:
         """Calls the function in position 7 on the stack with the top
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 16a83f9..3c4260a 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -3,9 +3,8 @@
 import collections
 import inspect
 import linecache
+import sys
 import types
-from copy import copy
-from sys import stderr
 
 from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, iscode
 from xdis.cross_dis import findlinestarts
@@ -538,20 +537,23 @@ class Frame(object):
 
 
 class Traceback:
-    def __init__(self, frame) -> None:
-        self.tb_next = frame.f_back
+    def __init__(self, frame, tb_next=None, exception=None) -> None:
+        self.tb_next = tb_next
         self.tb_lasti = frame.f_lasti
         self.tb_lineno = frame.f_lineno
         self.tb_frame = frame
+        self.exception = exception
 
     # Note: this can be removed when we have our own compatibility traceback.
-    def print_tb(self, limit=None, file=stderr) -> None:
+    def print_tb(self, limit=None, file=None) -> None:
         """Like traceback.tb, but is a method."""
+        if file is None:
+            file = sys.stderr
         tb = self
         while tb:
             f = tb.tb_frame
             filename = f.f_code.co_filename
-            lineno = f.line_number()
+            lineno = tb.tb_lineno
             print(
                 '  File "%s", line %d, in %s' % (filename, lineno, f.f_code.co_name),
                 file=file,
@@ -564,15 +566,14 @@ class Traceback:
 
 
 # FIXME: Remove from here and specialize under specific bytecode classses
-def traceback_from_frame(frame):
-    tb = None
-
-    while frame:
-        copy_frame = copy(frame)
-        next_tb = Traceback(copy_frame)
-        tb = next_tb
-        frame = frame.f_back
-    return tb
+def traceback_from_frame(frame, exception=None, last_traceback=None):
+    """The traceback of an exception that was raised in "frame", or has come
+    there from a function that it called. In the latter case "last_traceback" is
+    the traceback that the exception has so far.
+    """
+    if last_traceback and last_traceback.exception is not exception:
+        last_traceback = None
+    return Traceback(frame, last_traceback, exception)
 
 
 class Generator(object):
diff --git a/xpython/vm.py b/xpython/vm.py
index 8e33e0b..9c71417 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -6,6 +6,7 @@ import linecache
 import logging
 import os
 import sys
+from traceback import format_exception_only
 from typing import Any, List
 
 from xdis import (
@@ -455,23 +456,14 @@ class PyVM(object):
             self.eval_frame(frame)
         except PyVMUncaughtException:
             if self.last_traceback is not None:
-                print("Traceback (most recent call last):")
+                print("Traceback (most recent call last):", file=sys.stderr)
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
-                print(f"{self.last_exception[0].__name__}: {self.last_exception[1]}")
+                exc_type, exc_value = self.last_exception[:2]
+                for line in format_exception_only(exc_type, exc_value):
+                    print(line, end="", file=sys.stderr)
             return 1
 
-        except Exception:
-            if self.last_traceback:
-                self.last_traceback.print_tb()
-                print(f"{self.last_exception[0].__name__}", end="")
-                le1 = self.last_exception[1]
-                tail = ""
-                if le1:
-                    tail = "\n".join(le1.args)
-                print(tail)
-            raise
-
         # Frame ran to normal completion... check some invariants
         if toplevel:
             if self.frames:  # pragma: no cover
@@ -725,7 +717,6 @@ class PyVM(object):
 
         except BaseException:
             # Deal with exceptions encountered while executing the op.
-            self.last_traceback = byteop.traceback_from_frame()
             self.last_exception = sys.exc_info()
 
             # FIXME: dry code
@@ -895,7 +886,9 @@ class PyVM(object):
 
             if why == "exception":
                 # Deal with exceptions encountered while executing the op.
-                # TODO: ceval calls PyTraceBack_Here, not sure what that does.
+                self.last_traceback = traceback_from_frame(
+                    frame, self.last_exception[1], self.last_traceback
+                )
 
                 if self.version >= (3, 11):
                     self.exception_handling_311()
@@ -919,7 +912,6 @@ class PyVM(object):
                                 )
                             )
                         )
-                    self.last_traceback = traceback_from_frame(frame)
                     self.in_exception_processing = True
 
             elif why == "reraise":
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index f6b5fd8..c9e2424 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -301,13 +301,14 @@ class PyVMTraced(PyVM):
 
             if why == "exception":
                 # Deal with exceptions encountered while executing the op.
-                # TODO: ceval calls PyTraceBack_Here, not sure what that does.
+                self.last_traceback = traceback_from_frame(
+                    frame, self.last_exception[1], self.last_traceback
+                )
 
                 if self.version >= (3, 11):
                     self.exception_handling_311()
 
                 if not self.in_exception_processing:
-                    self.last_traceback = traceback_from_frame(self.frame)
                     self.in_exception_processing = True
 
             elif why == "reraise":
-- 
2.43.0


From 83fdab70b6c74f805c480e53522e4aa1e8c2db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 74/87] fix: exception handling in 3.11 and 3.12, and CALL of a
 decorator

---
 xpython/byteop/byteop.py    |  3 +-
 xpython/byteop/byteop24.py  |  2 +-
 xpython/byteop/byteop311.py | 36 ++++++++++++--------
 xpython/byteop/byteop39.py  | 14 ++++----
 xpython/vm.py               | 66 ++++++++++++++-----------------------
 xpython/vmtrace.py          |  5 ---
 6 files changed, 56 insertions(+), 70 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 41de14d..71fe62a 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -459,8 +459,7 @@ class ByteOpBase(object):
 
     def do_raise(self, exc, cause, has_cause=False):
         if exc is None:  # reraise
-            if self.version_info[:2] < (3, 11):
-                self.vm.last_exception = self.vm.handled_exception
+            self.vm.last_exception = self.vm.handled_exception
             exc_type, val, _ = self.vm.last_exception
             if exc_type is None:
                 raise RuntimeError("No active exception to reraise")
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 736a9ec..04515ac 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -141,7 +141,7 @@ class ByteOp24(ByteOpBase):
         """
         Python 2.4ish style sys.exc_info() function.
         """
-        if (3, 0) <= self.version_info[:2] < (3, 11):
+        if self.version_info[:2] >= (3, 0):
             return self.vm.handled_exception
         return self.vm.last_exception or (None, None, None)
 
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 7d13cf6..8227b10 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -56,8 +56,15 @@ class ByteOp311(ByteOp310):
         self.version = "3.11.0 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(3, 11, 0, "final", 0)
 
-    # In 3.11 there is just one value for the exception state.
-    POP_EXCEPT = ByteOp37.POP_EXCEPT
+    def POP_EXCEPT(self):
+        """
+        Pops a value from the stack, which is used to restore the exception state.
+        """
+        val = self.vm.pop()
+        if val is None:
+            self.vm.handled_exception = (None, None, None)
+        else:
+            self.vm.handled_exception = (type(val), val, val.__traceback__)
 
     def call311_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
@@ -66,11 +73,9 @@ class ByteOp311(ByteOp310):
         if self.vm.top is NULL:
             self.vm.pop()  # Remove NULL
         else:
-            # Pickup self.
-            self_obj = self.vm.pop()
-            retval = self_obj(func, *pos_args, **named_args)
-            self.vm.push(retval)
-            return
+            # What there is instead is the callable, and "func" its first argument.
+            pos_args = [func] + pos_args
+            func = self.vm.pop()
 
         # FIXME: put this in a separate routine.
         if inspect.isbuiltin(func):
@@ -520,11 +525,16 @@ class ByteOp311(ByteOp310):
 
         TOS is usually the exception in an `except` cluase of a `try` block,
         while TOS1 is usually the exception that got raised.
-
-        For "exception matching" use isinstance(TOS1 TOS.__class__) so superclasses
         """
-        _, tos = self.vm.popn(2)
-        self.vm.push(isinstance(tos, tos.__class__))
+        match_type = self.vm.pop()
+        types = match_type if isinstance(match_type, tuple) else (match_type,)
+        for t in types:
+            if not (isinstance(t, type) and issubclass(t, BaseException)):
+                raise TypeError(
+                    "catching classes that do not inherit from BaseException is not allowed"
+                )
+        # As PyErr_GivenExceptionMatches(), which does not use __instancecheck__().
+        self.vm.push(any(t in type(self.vm.top).__mro__ for t in types))
 
     def JUMP_BACKWARD(self, offset: int):
         """
@@ -608,9 +618,9 @@ class ByteOp311(ByteOp310):
         back to the stack. Used in exception handlers.
         """
         val = self.vm.pop()
-        self.vm.push(self.vm.last_exception[1])
+        self.vm.push(self.vm.handled_exception[1])
         self.vm.push(val)
-
+        self.vm.handled_exception = (type(val), val, val.__traceback__)
 
     def RESUME(self, where: int):
         """
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 7149759..b24676a 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -58,11 +58,8 @@ class ByteOp39(ByteOp38):
             self.vm.last_exception = (exctype, val, tb)
             return "reraise"
 
-        # An exception was already set up to set: self.vm.last_exception,
-        # self.vm.last_type, self.vm.last_value, self.vm.last_traceback.
-        # All we need to do here is note an exception return.
-        for _ in range(oparg, 0, -1):
-            self.vm.frame.block_stack.pop()
+        val = self.vm.pop()
+        self.vm.last_exception = (type(val), val, val.__traceback__)
         return "reraise"
 
     def WITH_EXCEPT_START(self) -> None:
@@ -72,8 +69,11 @@ class ByteOp39(ByteOp38):
         has occurred in a with statement.
         """
         if self.version_info[:2] >= (3, 11):
-            # FIXME
-            raise RuntimeError("WITH_EXCEPT_START not implemented yet")
+            # There the stack has: exit function, lasti, previous exception, exception
+            val = self.vm.top
+            exit_method = self.vm.peek(4)
+            self.vm.push(exit_method(type(val), val, val.__traceback__))
+            return
         tb, val, exctype = (self.vm.peek(i) for i in (3, 2, 1))
         exit_method = self.vm.peek(7)
         self.vm.push(exit_method(exctype, val, tb))
diff --git a/xpython/vm.py b/xpython/vm.py
index 9c71417..2f1c663 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -191,29 +191,25 @@ class PyVM(object):
         self.opc = get_opcode_module(python_version, python_implementation)
         self.byteop = get_byteop(self, python_version, python_implementation)
 
-    def exception_handling_311(self):
+    def exception_handling_311(self) -> bool:
         """In Python 3.11 exception handling blocks are handled off
         of a code co_exceptiontable.
 
-        Here, we find the exception block associated with a code offset,
-        determined by the frame's f_lasti, push the exception block,
-        and note we are in exception processing
-
+        Here, we find the handler for the instruction at the frame's f_lasti. If
+        there is one, the evaluation stack is cut to the depth that it has there,
+        the exception is pushed, and execution goes on at the handler.
         """
         frame = self.frame
         lasti = frame.f_lasti
-        encoded_exception_table = frame.f_code.co_exceptiontable
-        exception_entries = parse_exception_table(encoded_exception_table)
-        for exception_entry in exception_entries:
-            if exception_entry.start <= lasti <= exception_entry.end:
-                self.push_block(
-                    "setup-except311",
-                    exception_entry.target,
-                    exception_entry.depth,
-                )
-                self.in_exception_processing = True
-                break
-        return
+        for entry in parse_exception_table(frame.f_code.co_exceptiontable):
+            if entry.start <= lasti < entry.end:
+                del frame.stack[entry.depth:]
+                if entry.lasti:
+                    self.push(lasti)
+                self.push(self.last_exception[1])
+                self.jump(entry.target)
+                return True
+        return False
 
     ##############################################
     # Frame operations. First the frame stack....
@@ -489,8 +485,8 @@ class PyVM(object):
             self.pop()
 
         # Set self.last_exception which will filter its way to
-        # sys.last_exception. 3.11+ has a already set this.
-        if block.type == "except-handler" and self.version < (3, 11):
+        # sys.last_exception.
+        if block.type == "except-handler":
             tb, value, exctype = self.popn(3)
             self.last_exception = self.handled_exception = exctype, value, tb
 
@@ -756,9 +752,7 @@ class PyVM(object):
             why = None
             return why
 
-        if not (
-            block.type in ("except-handler", "setup-except311") and why == "silenced"
-        ):
+        if not (block.type == "except-handler" and why == "silenced"):
             self.pop_block()
             raised = self.last_exception
             self.unwind_block(block)
@@ -811,21 +805,7 @@ class PyVM(object):
                 self.push(exc_traceback, exc_value, exc_type)
                 return why
 
-            if why == "exception" and block.type == "setup-except311":
-                # FIXME: Is this right?
-                self.push(self.last_exception)
-                self.push_block("except-handler")
-                why = None
-
-                # Make the raw exception data available to the
-                # handler, so a program can emulate the Python main
-                # loop.
-
-                # PyErr_NormalizeException goes here
-                self.jump(block.handler)
-                return why
-
-            elif block.type == "finally":
+            if block.type == "finally":
                 if why in ("return", "continue"):
                     self.push(self.return_value)
                 self.push(why)
@@ -890,9 +870,6 @@ class PyVM(object):
                     frame, self.last_exception[1], self.last_traceback
                 )
 
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
-
                 if not self.in_exception_processing:
                     # FIXME: DRY code
                     if self.last_exception[0] != SystemExit:
@@ -916,8 +893,13 @@ class PyVM(object):
 
             elif why == "reraise":
                 why = "exception"
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
+
+            if (
+                why == "exception"
+                and self.version >= (3, 11)
+                and self.exception_handling_311()
+            ):
+                why = None
 
             if why != "yield":
                 while why and frame.block_stack:
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index c9e2424..1e0ab22 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -305,16 +305,11 @@ class PyVMTraced(PyVM):
                     frame, self.last_exception[1], self.last_traceback
                 )
 
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
-
                 if not self.in_exception_processing:
                     self.in_exception_processing = True
 
             elif why == "reraise":
                 why = "exception"
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
 
 
             if why != "yield":
-- 
2.43.0


From dcf319868a84274cad742105a37fbfa39ca7935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 75/87] fix: traced exceptions of 3.11 and 3.12 were not
 handled

---
 xpython/vmtrace.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 1e0ab22..bf621ca 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -311,6 +311,12 @@ class PyVMTraced(PyVM):
             elif why == "reraise":
                 why = "exception"
 
+            if (
+                why == "exception"
+                and self.version >= (3, 11)
+                and self.exception_handling_311()
+            ):
+                why = None
 
             if why != "yield":
                 while why and frame.block_stack:
-- 
2.43.0


From 9640b9c8d58d5a92ccb06bc2f429625e8e4fd0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 76/87] fix: instructions of 3.12 that were missing or wrong,
 and the order of its cell variables

---
 xpython/byteop/byteop311.py | 178 ++------------------------------
 xpython/byteop/byteop312.py | 197 ++++++++++++++++++++++++++++++------
 xpython/byteop/byteop36.py  |   3 +
 xpython/vm.py               |  16 +--
 4 files changed, 187 insertions(+), 207 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 8227b10..0c7ae6d 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -11,7 +11,7 @@ import inspect
 import logging
 from typing import Tuple
 
-from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
+from xdis.version_info import PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop36 import (
@@ -19,7 +19,6 @@ from xpython.byteop.byteop36 import (
     MAKE_FUNCTION_SLOT_NAMES,
     MAKE_FUNCTION_SLOTS,
 )
-from xpython.builtins import build_class, builtin_super
 from xpython.byteop.byteop37 import NULL, ByteOp37
 from xpython.byteop.byteop310 import ByteOp310
 from xpython.pyobj import Cell, Function
@@ -67,8 +66,6 @@ class ByteOp311(ByteOp310):
             self.vm.handled_exception = (type(val), val, val.__traceback__)
 
     def call311_function_with_args_resolved(self, func, pos_args, named_args):
-        frame = self.vm.frame
-
         assert not self.vm.is_empty_stack
         if self.vm.top is NULL:
             self.vm.pop()  # Remove NULL
@@ -77,152 +74,7 @@ class ByteOp311(ByteOp310):
             pos_args = [func] + pos_args
             func = self.vm.pop()
 
-        # FIXME: put this in a separate routine.
-        if inspect.isbuiltin(func):
-            log.debug(f"handling built-in function {func.__name__}")
-            if func == globals and not (pos_args or named_args):
-                # Use the frame's globals(), not the interpreter's
-                self.vm.push(frame.f_globals)
-                return
-            elif func == locals and not (pos_args or named_args):
-                # Use the frame's locals(), not the interpreter's
-                self.vm.push(self.current_locals(frame))
-                return
-            elif func == vars and not (pos_args or named_args):
-                self.vm.push(self.current_locals(frame))
-                return
-            elif func == dir and not (pos_args or named_args):
-                self.vm.push(sorted(self.current_locals(frame)))
-                return
-
-            if func == compile:
-                # Set dont_inherit parameter.  FIXME: we should set
-                # other flags too based on the interpreted
-                # environment?
-                if len(pos_args) < 5 and "dont_inherit" not in named_args:
-                    named_args["dont_inherit"] = True
-                    pass
-            elif func.__name__ == "exec":
-                pos_args = self.fill_namespaces("exec", pos_args)
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, (str, bytes)):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="exec", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_exec_warning_shown:
-                        log.warning(
-                            "Running built-in `exec()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_exec_warning_shown = True
-
-            elif func == eval:
-                pos_args = self.fill_namespaces("eval", pos_args)
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, (str, bytes)):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="eval", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_eval_warning_shown:
-                        log.warning(
-                            "Running built-in `eval()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_eval_warning_shown = True
-
-            elif PYTHON_VERSION_TRIPLE >= (3, 0) and func == __build_class__:
-                assert len(pos_args) > 0, (
-                    "__build_class__() should have at least one argument, an "
-                    "__init__() function."
-                )
-                init_fn = pos_args[0]
-                if (
-                    isinstance(init_fn, Function)
-                    or self.is_pypy
-                    or self.version_info[:2] != PYTHON_VERSION_TRIPLE[:2]
-                ):
-                    # 3.3+ __build_class__() works only on bytecode
-                    # that matches the CPython interpreter, so use
-                    # Darius' version instead.  Down the line we will
-                    # try to do this universally, but it is tricky:
-                    retval = build_class(self.vm.opc, *pos_args, **named_args)
-                    self.vm.push(retval)
-                    return
-                else:
-                    # Use builtin __build_class__(). However for that,
-                    # we need a native function.  This is wrong though
-                    # in that we won't trace into __init__().
-                    init_fn = pos_args[0]
-                    if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
-                        pos_args[0] = self.vm.fn2native[init_fn]
-        elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
-            namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
-
-        if (
-            inspect.isfunction(func)
-            and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
-        ):
-            # Try to convert to an interpreter function, so we can interpret it.
-            if func in self.vm.fn2native:
-                func = self.vm.fn2native[func]
-            elif False:  # self.vm.version < (3, 0):
-                # Not quite ready. See 3.7 test_asyncgen.py for an
-                # example of code that comes here. In that test, the
-                # LOAD_GLOBAL '_ignore_deprecated_imports' fails to
-                # find the global. '_ignore_deprecated_imports' is a method name
-                # in test.support module of test/support/__init__.py.
-                # In Python 2.X we work around a similar problem by
-                # not tying to handle functions with closures.
-                assert len(pos_args) > 0
-                pos_args[0] = self.convert_native_to_Function(frame, pos_args[0])
-
-        if (
-            inspect.isfunction(func)
-            and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
-        ):
-            log.debug(f"calling native function {func.__name__}")
-        elif inspect.isclass(func):
-            if func.__name__ == "super":
-                pos_args = [self.vm.frame] + pos_args
-                func = builtin_super
-
-        retval = func(*pos_args, **named_args)
-        self.vm.push(retval)
+        self.call_function_with_args_resolved(func, pos_args, named_args)
 
     def is_method(self, argc: int) -> bool:
         """
@@ -296,21 +148,16 @@ class ByteOp311(ByteOp310):
         Replaces CALL_FUNCTION
 
         """
-        total_args = argc + 1 if self.is_method(argc) else argc
-        # FIXME: figure out how to set this
-        kw_names_len = len(self.vm.frame.call_shape_kwnames)
         named_args = self.vm.frame.call_shape_kwnames
-        positional_args = total_args - kw_names_len
+        # Clear names set by KW_NAMES
+        self.vm.frame.call_shape_kwnames = {}
+        positional_args = argc - len(named_args)
         pos_args = self.vm.popn(positional_args)
         function = self.vm.pop()
         # C interpreter checks for inlining here.
         # We will skip this.
 
-        ret_val = self.call311_function_with_args_resolved(function, pos_args, named_args)
-
-        # Clear names set by KW_NAMES
-        self.vm.frame.call_shape_kwnames = {}
-        return ret_val
+        return self.call311_function_with_args_resolved(function, pos_args, named_args)
 
     def COPY_FREE_VARS(self, argc: int):
         """Copies the n free variables from the closure into the
@@ -327,13 +174,7 @@ class ByteOp311(ByteOp310):
         #     Py_INCREF(o);
         #     frame->localsplus[offset + i] = o;
         # }
-        frame = self.vm.frame
-        co = frame.f_code
-        localsplus = co.co_freevars + co.co_cellvars
-        for i in range(argc):
-            name = localsplus[i]
-            if not frame.cells[name].is_empty():
-                frame.f_locals[name] = frame.cells[name].get()
+        # In this interpreter, the cells are put in the frame when it is created.
         return
 
     def KW_NAMES(self, names: Tuple[str]):
@@ -356,7 +197,8 @@ class ByteOp311(ByteOp310):
         Creates a new cell in slot i having name "name". If that slot is nonempty then that value is stored into the new cell.
 
 
-        In this interpreter, we create all cells when the frame is created. So there's nothing to do
+        In this interpreter, cells are also created when the frame is created. But
+        in a comprehension there is a new one each time that it runs.
         """
         # PyObject *initial = GETLOCAL(oparg);
         # PyObject *cell = PyCell_New(initial);
@@ -364,7 +206,7 @@ class ByteOp311(ByteOp310):
         #     goto resume_with_error;
         # }
         # SETLOCAL(oparg, cell);
-        self.vm.frame.cells[name].set(self.vm.frame.f_locals.get(name, Cell.EMPTY))
+        self.vm.frame.cells[name] = Cell(self.vm.frame.f_locals.get(name, Cell.EMPTY))
         return
 
     # Changed in 3.11...
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 64b7eb3..534486d 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -12,6 +12,12 @@ from xpython.byteop.byteop311 import ByteOp311
 from xpython.byteop.byteop37 import NULL
 
 
+class SavedLocal(tuple):
+    """
+    The state of a local variable, which LOAD_FAST_AND_CLEAR saves on the stack.
+    """
+
+
 # pylint: disable=too-many-public-methods
 class ByteOp312(ByteOp311):
     """
@@ -52,10 +58,10 @@ class ByteOp312(ByteOp311):
 
     def END_SEND(self):
         """
-        To be continued...
+        Implements del STACK[-2]. Used to clean up when a generator exits.
         """
-        # FIXME
-        raise self.vm.PyVMError("END_SEND not implemented")
+        _, value = self.vm.popn(2)
+        self.vm.push(value)
 
     def RESERVED(self):
         """
@@ -71,25 +77,130 @@ class ByteOp312(ByteOp311):
           start = STACK.pop()
           container = STACK.pop()
           values = STACK.pop()
-          STACK.push(container)
+          container[start:end] = values
         """
         values, container, start, end = self.vm.popn(4)
-        container[start:end]= values
-        self.vm.push(container)
+        container[start:end] = values
 
     def CLEANUP_THROW(self):
         """
-        To be continued...
+        Handles an exception raised during a throw() or close() call through the
+        current frame. If STACK[-1] is an instance of StopIteration, pop three
+        values from the stack and push its value member. Otherwise, re-raise it.
         """
-        # FIXME
-        raise self.vm.PyVMError("CLEANUP_THROW not implemented")
+        val = self.vm.pop()
+        if isinstance(val, StopIteration):
+            self.vm.popn(2)
+            self.vm.push(None)
+            self.vm.push(val.value)
+            return
+        self.vm.last_exception = (type(val), val, val.__traceback__)
+        return "reraise"
 
     def LOAD_LOCALS(self):
         """
-        To be continued...
+        Pushes a reference to the locals dictionary onto the stack.
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_LOCALS not implemented")
+        self.vm.push(self.current_locals(self.vm.frame))
+
+    def LOAD_FROM_DICT_OR_GLOBALS(self, name):
+        """
+        Pops a mapping off the stack and looks up the value for name in it. If it
+        is not found there, looks it up in the globals and then the builtins.
+        """
+        mapping = self.vm.pop()
+        if name in mapping:
+            self.vm.push(mapping[name])
+        else:
+            self.LOAD_GLOBAL(name)
+
+    def LOAD_FROM_DICT_OR_DEREF(self, name):
+        """
+        Pops a mapping off the stack and looks up the variable name in it. If it
+        is not found there, it is loaded from its cell.
+        """
+        mapping = self.vm.pop()
+        if name in mapping:
+            self.vm.push(mapping[name])
+        else:
+            self.LOAD_DEREF(name)
+
+    def BEFORE_WITH(self):
+        """
+        Loads __exit__() from the context manager and pushes it onto the stack
+        for later use by WITH_EXCEPT_START. Then __enter__() is called and its
+        result is pushed.
+        """
+        manager = self.vm.pop()
+        for name in ("__enter__", "__exit__"):
+            if not hasattr(type(manager), name):
+                raise TypeError(
+                    f"'{type(manager).__name__}' object does not support the "
+                    "context manager protocol"
+                )
+        self.vm.push(manager.__exit__)
+        self.vm.push(manager.__enter__())
+
+    def RETURN_GENERATOR(self):
+        """
+        Makes a generator of the current frame. In this interpreter that is what
+        the call of the function did. So there's nothing to do.
+        """
+        return
+
+    def YIELD_VALUE(self, _):
+        """
+        Yields STACK.pop() from a generator.
+        """
+        self.vm.return_value = self.vm.pop()
+        return "yield"
+
+    def SEND(self, target):
+        """
+        Equivalent to STACK[-1] = STACK[-2].send(STACK[-1]). When that raises
+        StopIteration, its value is what is pushed, and execution goes on at
+        target.
+        """
+        value = self.vm.pop()
+        receiver = self.vm.top
+        try:
+            if value is None:
+                result = next(receiver)
+            else:
+                result = receiver.send(value)
+        except StopIteration as e:
+            result = e.value
+            self.vm.jump(target)
+        self.vm.push(result)
+
+    def JUMP_BACKWARD_NO_INTERRUPT(self, target: int):
+        """
+        Jumps backward. Does not check for interrupts.
+        """
+        self.vm.jump(target)
+
+    def CALL_INTRINSIC_1(self, operand: int):
+        """
+        Calls an intrinsic function with one argument: STACK[-1] becomes the
+        result of the call.
+        """
+        if operand == 2:  # INTRINSIC_IMPORT_STAR
+            self.IMPORT_STAR()
+            self.vm.push(None)
+            return
+        value = self.vm.pop()
+        if operand == 3:  # INTRINSIC_STOPITERATION_ERROR
+            if isinstance(value, StopIteration):
+                error = RuntimeError("generator raised StopIteration")
+                error.__cause__ = error.__context__ = value
+                value = error
+        elif operand == 5:  # INTRINSIC_UNARY_POSITIVE
+            value = +value
+        elif operand == 6:  # INTRINSIC_LIST_TO_TUPLE
+            value = tuple(value)
+        else:
+            raise self.vm.PyVMError(f"CALL_INTRINSIC_1 {operand} not implemented")
+        self.vm.push(value)
 
     def RETURN_CONST(self, consti):
         """
@@ -98,12 +209,12 @@ class ByteOp312(ByteOp311):
         self.vm.return_value = consti
         return "return"
 
-    def LOAD_FAST_CHECK(self):
+    def LOAD_FAST_CHECK(self, name):
         """
-        To be continued...
+        Pushes a reference to the local co_varnames[var_num] onto the stack,
+        raising an UnboundLocalError if it has not been initialized.
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_FAST_CHECK not implemented")
+        self.LOAD_FAST(name)
 
     # def POP_JUMP_IF_FALSE(self):
     #     """
@@ -119,26 +230,33 @@ class ByteOp312(ByteOp311):
     #     # FIXME
     #     raise self.vm.PyVMError("POP_JUMP_IF_FALSE not implemented")
 
-    def POP_JUMP_IF_NOT_NONE(self):
+    def POP_JUMP_IF_NOT_NONE(self, target: int):
         """
-        To be continued...
+        If STACK[-1] is not None, jumps to target. STACK[-1] is popped.
         """
-        # FIXME
-        raise self.vm.PyVMError("POP_JUMP_IF_NOT_NONE not implemented")
+        if self.vm.pop() is not None:
+            self.vm.jump(target)
 
-    def POP_JUMP_IF_NONE(self):
+    def POP_JUMP_IF_NONE(self, target: int):
         """
-        To be continued...
+        If STACK[-1] is None, jumps to target. STACK[-1] is popped.
         """
-        # FIXME
-        raise self.vm.PyVMError("POP_JUMP_IF_NONE not implemented")
+        if self.vm.pop() is None:
+            self.vm.jump(target)
 
-    def LOAD_SUPER_ATTR(self):
+    def LOAD_SUPER_ATTR(self, name, push_null=False, two_args=False):
         """
-        To be continued...
+        Implements super().name and super(cls, self).name. On the stack are what
+        the name super is, the class and the object.
+
+        Note: the parameters are set in parse_byte_and_args()
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_SUPER_ATTR not implemented")
+        super_fn, cls, obj = self.vm.popn(3)
+        args = (cls, obj) if two_args or super_fn is super else ()
+        val = getattr(super_fn(*args), name)
+        if push_null:
+            self.vm.push(NULL)
+        self.vm.push(val)
 
     def LOAD_FAST_AND_CLEAR(self, name):
         """Pushes a reference to the local co_varnames[var_num] onto
@@ -146,11 +264,24 @@ class ByteOp312(ByteOp311):
         has not been initialized) and sets co_varnames[var_num] to
         NULL.
         """
-        value = self.vm.frame.f_locals.get(name, NULL)
-        if value is NULL:
-            self.vm.frame.f_locals[name] = NULL
-        self.vm.push(value)
-
+        frame = self.vm.frame
+        # The variable has either a cell or a value, or both, when it has a cell
+        # in a comprehension only.
+        cell = frame.cells.get(name) if frame.cells else None
+        self.vm.push(SavedLocal((frame.f_locals.pop(name, NULL), cell)))
+
+    def STORE_FAST(self, name):
+        """Stores STACK.pop() into the local co_varnames[var_num]."""
+        frame = self.vm.frame
+        value = self.vm.pop()
+        if isinstance(value, SavedLocal):
+            value, cell = value
+            if cell is not None:
+                frame.cells[name] = cell
+            if value is NULL:
+                frame.f_locals.pop(name, None)
+                return
+        frame.f_locals[name] = value
 
     # And many more...
 
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 4dae16d..0a6e8a2 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -277,6 +277,9 @@ class ByteOp36(ByteOp35):
         namedargs = self.vm.pop() if flags & 1 else {}
         posargs = self.vm.pop()
         func = self.vm.pop()
+        if self.version_info[:2] >= (3, 11):
+            # There is a NULL below the callable.
+            self.vm.pop()
         self.call_function_with_args_resolved(func, posargs, namedargs)
 
     def SETUP_ANNOTATIONS(self):
diff --git a/xpython/vm.py b/xpython/vm.py
index 2f1c663..5065e2b 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -365,10 +365,8 @@ class PyVM(object):
         cells = code.co_cellvars
         freevars = code.co_freevars
         localsplusnames = (varnames or tuple()) + tuple(
-            name for name in (freevars or tuple()) if name not in varnames
-            ) + tuple(
             name for name in (cells or tuple()) if name not in varnames
-            )
+            ) + tuple(freevars or tuple())
 
         frame = Frame(
             f_code=code,
@@ -577,6 +575,12 @@ class PyVM(object):
                         namei = f_code.co_names[int_arg >> 1]
                         push_NULL = bool(int_arg & 1)
                         arguments = [namei, push_NULL]
+                    elif bytecode_name == "LOAD_SUPER_ATTR":
+                        arguments = [
+                            f_code.co_names[int_arg >> 2],
+                            bool(int_arg & 1),
+                            bool(int_arg & 2),
+                        ]
                     else:
                         arg = f_code.co_names[int_arg]
                         if isinstance(arg, UnicodeForPython3):
@@ -594,9 +598,9 @@ class PyVM(object):
                             int_arg = -int_arg
                         int_arg += int_arg
                     arg = arg_offset + int_arg
-                    if bytecode_name == "FOR_ITER" and self.version >= (3, 12):
-                        # 3.12 jumps one more instruction for reasons I can't find
-                        # well documented.
+                    if bytecode_name in ("FOR_ITER", "SEND") and self.version >= (3, 12):
+                        # The jump is relative to the end of the instruction,
+                        # which includes one CACHE entry.
                         arg += 2
 
                 elif byte_code in self.opc.JABS_OPS:
-- 
2.43.0


From a54ff27a0067e24975ae0799b1058b23828144f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 77/87] fix: exec and eval in the interpreter's own version

---
 xpython/byteop/byteop.py | 54 ++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 71fe62a..dc94c54 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -197,8 +197,41 @@ class ByteOpBase(object):
                 locs = self.current_locals(frame)
         elif locs is None:
             locs = globs
+        if isinstance(globs, dict):
+            globs.setdefault("__builtins__", frame.f_builtins)
         return [source, globs, locs]
 
+    def run_source(self, name: str, pos_args: list):
+        """
+        Runs the source, or code object, which exec() or eval() is given, using our
+        own interpreter not CPython's.
+        """
+        source, globs, locs = pos_args
+        if not isinstance(globs, dict):
+            raise TypeError(
+                f"{name}() globals must be a dict, not {type(globs).__name__}"
+            )
+        if not hasattr(locs, "__getitem__"):
+            raise TypeError(
+                f"{name}() locals must be a mapping or None, not {type(locs).__name__}"
+            )
+        if not inspect.iscode(source):
+            if not isinstance(source, (str, bytes, bytearray, memoryview)):
+                raise TypeError(
+                    f"{name}() arg 1 must be a string, bytes or code object"
+                )
+            if name == "eval":
+                if isinstance(source, memoryview):
+                    source = bytes(source)
+                blanks = " \t" if isinstance(source, str) else b" \t"
+                source = source.lstrip(blanks)
+            source = compile(source, "<string>", mode=name, dont_inherit=True)
+        elif source.co_freevars:
+            raise TypeError(
+                f"code object passed to {name}() may not contain free variables"
+            )
+        return self.vm.run_code(source, globs, locs, toplevel=False)
+
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
         # Extending the arguments below must not change the caller's list.
@@ -264,15 +297,8 @@ class ByteOpBase(object):
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, (str, bytes)):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="exec", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
+                    self.run_source("exec", pos_args)
+                    self.vm.push(None)
                     return
                 else:
                     if not self.cross_bytecode_exec_warning_shown:
@@ -293,15 +319,7 @@ class ByteOpBase(object):
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, (str, bytes)):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="eval", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
+                    self.vm.push(self.run_source("eval", pos_args))
                     return
                 else:
                     if not self.cross_bytecode_eval_warning_shown:
-- 
2.43.0


From b6093ecca28171b1ccc05a2cdf568997ee68f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 78/87] fix: variables of comprehensions in modules of 3.12 are
 not variables of the module

---
 xpython/byteop/byteop311.py |  6 +++++-
 xpython/byteop/byteop312.py | 31 ++++++++++++++++++++++++++++---
 xpython/pyobj.py            |  3 ++-
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 0c7ae6d..fd545ae 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -206,9 +206,13 @@ class ByteOp311(ByteOp310):
         #     goto resume_with_error;
         # }
         # SETLOCAL(oparg, cell);
-        self.vm.frame.cells[name] = Cell(self.vm.frame.f_locals.get(name, Cell.EMPTY))
+        self.vm.frame.cells[name] = Cell(self.fast_locals().get(name, Cell.EMPTY))
         return
 
+    def fast_locals(self) -> dict:
+        """The fast local variables of the current frame."""
+        return self.vm.frame.f_locals
+
     # Changed in 3.11...
     def LOAD_GLOBAL(self, name, push_null: bool=False):
         """
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 534486d..ece26ad 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -7,6 +7,8 @@
 """Bytecode Interpreter operations for Python 3.12
 """
 
+import inspect
+
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop311 import ByteOp311
 from xpython.byteop.byteop37 import NULL
@@ -216,6 +218,29 @@ class ByteOp312(ByteOp311):
         """
         self.LOAD_FAST(name)
 
+    def fast_locals(self) -> dict:
+        """
+        The fast local variables of the current frame. In a module those are the
+        variables of its comprehensions, which are none of the variables of the
+        module.
+        """
+        frame = self.vm.frame
+        if frame.f_code.co_flags & inspect.CO_OPTIMIZED:
+            return frame.f_locals
+        return frame.hidden_locals
+
+    def LOAD_FAST(self, name):
+        """
+        Pushes a reference to the local co_varnames[var_num] onto the stack.
+        """
+        fast_locals = self.fast_locals()
+        if name not in fast_locals:
+            raise UnboundLocalError(
+                f"cannot access local variable '{name}' where it is not "
+                "associated with a value"
+            )
+        self.vm.push(fast_locals[name])
+
     # def POP_JUMP_IF_FALSE(self):
     #     """
     #     To be continued...
@@ -268,7 +293,7 @@ class ByteOp312(ByteOp311):
         # The variable has either a cell or a value, or both, when it has a cell
         # in a comprehension only.
         cell = frame.cells.get(name) if frame.cells else None
-        self.vm.push(SavedLocal((frame.f_locals.pop(name, NULL), cell)))
+        self.vm.push(SavedLocal((self.fast_locals().pop(name, NULL), cell)))
 
     def STORE_FAST(self, name):
         """Stores STACK.pop() into the local co_varnames[var_num]."""
@@ -279,9 +304,9 @@ class ByteOp312(ByteOp311):
             if cell is not None:
                 frame.cells[name] = cell
             if value is NULL:
-                frame.f_locals.pop(name, None)
+                self.fast_locals().pop(name, None)
                 return
-        frame.f_locals[name] = value
+        self.fast_locals()[name] = value
 
     # And many more...
 
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 3c4260a..af10f34 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -432,7 +432,8 @@ class Frame(object):
         self.f_code = f_code
         self.f_globals = f_globals
         self.f_locals = f_locals
-        self.f_locals = f_locals
+        # Fast variables that are not in f_locals; see ByteOp312.fast_locals()
+        self.hidden_locals = {}
         self.f_trace = None
         self.localsplusnames = localsplusnames
         self.stack = []
-- 
2.43.0


From ce44f785ef015f262cf5b6912b543d4f8cc7d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 79/87] fix: the line of a frame after a jump into the middle
 of a line

---
 xpython/pyobj.py | 12 +++++-------
 xpython/vm.py    |  5 +++++
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index af10f34..bdc8900 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -7,7 +7,6 @@ import sys
 import types
 
 from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, iscode
-from xdis.cross_dis import findlinestarts
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.stdlib.types34 import _AsyncGeneratorWrapper
 
@@ -508,8 +507,8 @@ class Frame(object):
         self.fallthrough = False
         self.last_op = None
 
-        # Keep a cache of line starts for this frame
-        self.line_starts = list(findlinestarts(self.f_code))
+        # Where lines start: offset -> line number. make_frame() sets this.
+        self.linestarts = {}
 
         # Python 3.11 adds call_shape structure which
         # has only one item, kwnames.
@@ -526,10 +525,9 @@ class Frame(object):
 
     def line_number(self) -> int:
         """Get the current line number the frame is executing."""
-        # We don't keep f_lineno up to date, so calculate it based on the
-        # instruction address and the line number table.
-        last_line_number = 0
-        for offset, line_number in self.line_starts:
+        # Calculate it based on the instruction address and the line number table.
+        last_line_number = self.f_code.co_firstlineno
+        for offset, line_number in sorted(self.linestarts.items()):
             if offset > self.f_lasti:
                 break
             last_line_number = line_number
diff --git a/xpython/vm.py b/xpython/vm.py
index 5065e2b..1a50fc8 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -514,14 +514,19 @@ class PyVM(object):
             if f.fallthrough:
                 if not replay:
                     f.f_lasti = next_offset(byte_code, self.opc, f.f_lasti)
+                jumped = False
             else:
                 # Jump instructions must set this False.
                 f.fallthrough = True
+                jumped = True
             offset = f.f_lasti
             starts_line = self.frame.linestarts.get(offset, None)
             if starts_line is not None:
                 # Note that a line can start at the prefix of an instruction.
                 line_number = f.f_lineno = starts_line
+            elif jumped:
+                # A jump into the middle of a line.
+                f.f_lineno = f.line_number()
             if not replay:
                 byte_code = byteint(co_code[offset])
             bytecode_name = self.opc.opname[byte_code]
-- 
2.43.0


From f7822ee9f645552622596b7c6175ea9c1d13de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 80/87] fix: raise without operands in 2.x and 3.1 added the
 frame to the traceback again

---
 xpython/byteop/byteop24.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 04515ac..4bd252e 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -931,7 +931,8 @@ class ByteOp24(ByteOpBase):
 
         self.vm.last_exception = (exctype, val, tb)
 
-        if tb:
+        # When an exception is raised again, this frame is in its traceback already.
+        if tb or argc == 0:
             return "reraise"
         else:
             return "exception"
-- 
2.43.0


From 1b977ad4f83dd1bfff6d6002b21d294f22d6a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 81/87] fix: sys.hexversion and sys.version of a program are
 those of its version

---
 xpython/byteop/byteop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index dc94c54..525a32e 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -616,7 +616,11 @@ class ByteOpBase(object):
 
         if self.sys_module is None:
             self.sys_module = copy_module(sys)
-            self.sys_module.hexversion = self.hexversion
+            major, minor, micro = self.version_info[:3]
+            self.sys_module.hexversion = (
+                major << 24 | minor << 16 | micro << 8 | 0xF0  # a final release
+            )
+            self.sys_module.version = self.version
             self.sys_module.version_info = self.version_info
             self.sys_module.exc_info = self.exc_info
         return self.sys_module
-- 
2.43.0


From 3fb0f04e27d3a5984bd33d0fb805a6d57b2111c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 82/87] fix: what except clauses match: nested tuples (2.x),
 other objects, classes with hooks

---
 xpython/byteop/byteop24.py  | 27 +++++++++++++++++++++++----
 xpython/byteop/byteop311.py |  9 +--------
 xpython/byteop/byteop32.py  | 15 +++++++++++++++
 xpython/byteop/byteop39.py  |  2 +-
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 4bd252e..5cb660f 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -556,8 +556,7 @@ class ByteOp24(ByteOpBase):
         lambda x, y: x not in y,
         lambda x, y: x is y,
         lambda x, y: x is not y,
-        lambda x, y: issubclass(x, BaseException)
-        and issubclass(x, y),  # exception-match
+        # exception-match is in COMPARE_OP
     ]
 
     def COMPARE_OP(self, opname: int):
@@ -567,7 +566,25 @@ class ByteOp24(ByteOpBase):
         Changed in 3.12
         """
         x, y = self.vm.popn(2)
-        self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
+        if opname < len(self.COMPARE_OPERATORS):
+            self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
+        else:
+            self.vm.push(self.exception_matches(x, y))
+
+    def exception_matches(self, exc_type: type, match_type) -> bool:
+        """
+        Tells whether "except match_type" handles exceptions of that type. Things
+        that are no exceptions match nothing, and tuples can have tuples in them.
+
+        Changed in 3.0
+        """
+        if isinstance(match_type, tuple):
+            return any(self.exception_matches(exc_type, t) for t in match_type)
+        return (
+            isinstance(match_type, type)
+            and BaseException in match_type.__mro__
+            and issubclass(exc_type, match_type)
+        )
 
     # Imports
 
@@ -915,7 +932,9 @@ class ByteOp24(ByteOpBase):
         if isinstance(exctype, BaseException):
             val = exctype
             exctype = type(val)
-        elif isinstance(exctype, type) and not isinstance(val, exctype):
+        elif isinstance(exctype, type) and not (
+            isinstance(val, BaseException) and issubclass(type(val), exctype)
+        ):
             # As PyErr_NormalizeException() does.
             if val is None:
                 val = exctype()
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index fd545ae..82d763e 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -373,14 +373,7 @@ class ByteOp311(ByteOp310):
         while TOS1 is usually the exception that got raised.
         """
         match_type = self.vm.pop()
-        types = match_type if isinstance(match_type, tuple) else (match_type,)
-        for t in types:
-            if not (isinstance(t, type) and issubclass(t, BaseException)):
-                raise TypeError(
-                    "catching classes that do not inherit from BaseException is not allowed"
-                )
-        # As PyErr_GivenExceptionMatches(), which does not use __instancecheck__().
-        self.vm.push(any(t in type(self.vm.top).__mro__ for t in types))
+        self.vm.push(self.exception_matches(type(self.vm.top), match_type))
 
     def JUMP_BACKWARD(self, offset: int):
         """
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 161abf8..1d1389d 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -58,6 +58,21 @@ class ByteOp32(ByteOp27):
         a, b = self.vm.popn(2)
         self.vm.push(a, b, a, b)
 
+    def exception_matches(self, exc_type: type, match_type) -> bool:
+        """
+        Tells whether "except match_type" handles exceptions of that type. Only
+        classes of exceptions, and tuples of those, can be used. As
+        PyErr_GivenExceptionMatches(), this does not use __subclasscheck__().
+        """
+        match_types = match_type if isinstance(match_type, tuple) else (match_type,)
+        for t in match_types:
+            if not (isinstance(t, type) and BaseException in t.__mro__):
+                raise TypeError(
+                    "catching classes that do not inherit from BaseException "
+                    "is not allowed"
+                )
+        return any(t in exc_type.__mro__ for t in match_types)
+
     def POP_EXCEPT(self):
         """
         Removes one block from the block stack. The popped block must be an
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index b24676a..633641c 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -107,7 +107,7 @@ class ByteOp39(ByteOp38):
         """
         TOS1, TOS = self.vm.popn(2)
         # FIXME: not sure what operation should be used to test not "matches".
-        if not issubclass(TOS1, TOS):
+        if not self.exception_matches(TOS1, TOS):
             self.vm.jump(target)
         return
 
-- 
2.43.0


From 0763ac7e7f548f985658da49dbc126a01eb5b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 83/87] fix: with (3.5-3.7): exceptions whose class has a
 metaclass, truth of what __exit__ gives

---
 xpython/byteop/byteop35.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index a59ec0b..fa54d14 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -190,11 +190,7 @@ class ByteOp35(ByteOp34):
         """
         exit_result = self.vm.pop()
         exception = self.vm.pop()
-        if (
-            exit_result
-            and type(exception) is type
-            and issubclass(exception, BaseException)
-        ):
+        if exception is not None and exit_result:
             # Pop the exception and replace with "silenced".
             self.vm.popn(1)
             self.vm.push("silenced")
-- 
2.43.0


From 37aad01ec3ac70cf5f19a0c7e8375f275274844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 84/87] fix: {**x} takes mappings only (3.5-3.8); what keys()
 raises; keys() asked once

---
 xpython/byteop/byteop35.py | 15 ++++++++++++++-
 xpython/byteop/byteop39.py |  4 +---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index fa54d14..bfe09fb 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -232,9 +232,22 @@ class ByteOp35(ByteOp34):
         elts = self.vm.popn(count)
         result = {}
         for d in elts:
-            result.update(d)
+            self.update_from_mapping(result, d)
         self.vm.push(result)
 
+    def update_from_mapping(self, result: dict, mapping) -> None:
+        """
+        As dict.update(), but only for mappings.
+        """
+        if isinstance(mapping, dict):
+            result.update(mapping)
+            return
+        try:
+            for key in mapping.keys():
+                result[key] = mapping[key]
+        except AttributeError:
+            raise TypeError(f"'{type(mapping).__name__}' object is not a mapping")
+
     def BUILD_MAP_UNPACK_WITH_CALL(self, oparg):
         """
         This is similar to BUILD_MAP_UNPACK, but is used for f(**x, **y,
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 633641c..c2fc00b 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -144,8 +144,6 @@ class ByteOp39(ByteOp38):
     def DICT_UPDATE(self, i) -> None:
         """Calls dict.update(TOS1[-i], TOS). Used to build dicts."""
         TOS = self.vm.pop()
-        if not hasattr(TOS, "keys"):
-            raise TypeError(f"'{type(TOS).__name__}' object is not a mapping")
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        destination.update(TOS)
+        self.update_from_mapping(destination, TOS)
-- 
2.43.0


From 2ab89bdc47a5e16b0945167ebcf06f59ef9abe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 85/87] fix: f(**x): methods of a subclass of dict are not
 used; AttributeError of keys()

---
 xpython/byteop/byteop.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 525a32e..40d805b 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -411,17 +411,21 @@ class ByteOpBase(object):
         """
         named_args = {}
         for mapping in mappings:
-            if not hasattr(mapping, "keys"):
+            if isinstance(mapping, dict):
+                # Methods that a subclass of dict has are not used.
+                mapping = dict(mapping)
+            try:
+                for name in mapping.keys():
+                    if name in named_args:
+                        raise TypeError(
+                            f"got multiple values for keyword argument '{name}'"
+                        )
+                    named_args[name] = mapping[name]
+            except AttributeError:
                 raise TypeError(
                     "argument after ** must be a mapping, not "
                     + type(mapping).__name__
                 )
-            for name in mapping.keys():
-                if name in named_args:
-                    raise TypeError(
-                        f"got multiple values for keyword argument '{name}'"
-                    )
-                named_args[name] = mapping[name]
         return named_args
 
     def convert_native_to_Function(self, frame, func: Callable) -> Callable:
-- 
2.43.0


From 19f09d53773c4e71422abee7349ee70067dc5571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:33 +0000
Subject: [PATCH 86/87] fix: raise: things that are not exceptions, values with
 instances, tuples (2.x), raise None

---
 xpython/byteop/byteop.py   | 11 ++++++++---
 xpython/byteop/byteop24.py | 32 ++++++++++++++++++++++----------
 xpython/byteop/byteop32.py |  2 +-
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 40d805b..bef0376 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -479,8 +479,8 @@ class ByteOpBase(object):
             self.vm.fn2native[native_func] = func
         return func
 
-    def do_raise(self, exc, cause, has_cause=False):
-        if exc is None:  # reraise
+    def do_raise(self, argc: int, exc, cause):
+        if argc == 0:  # reraise
             self.vm.last_exception = self.vm.handled_exception
             exc_type, val, _ = self.vm.last_exception
             if exc_type is None:
@@ -492,6 +492,11 @@ class ByteOpBase(object):
             # As in `raise ValueError`
             exc_type = exc
             val = exc()  # Make an instance.
+            if not isinstance(val, BaseException):
+                raise TypeError(
+                    f"calling {exc} should have returned an instance of "
+                    f"BaseException, not {type(val)}"
+                )
         elif isinstance(exc, BaseException):
             # As in `raise ValueError('foo')`
             exc_type = type(exc)
@@ -502,7 +507,7 @@ class ByteOpBase(object):
         # If you reach this point, you're guaranteed that
         # val is a valid exception instance and exc_type is its class.
         # Now do a similar thing for the cause, if present.
-        if has_cause:
+        if argc == 2:
             if isinstance(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
             elif cause is not None and not isinstance(cause, BaseException):
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 5cb660f..a1be918 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -929,20 +929,32 @@ class ByteOp24(ByteOpBase):
             exctype = self.vm.pop()
 
         # There are a number of forms of "raise", normalize them somewhat.
+        while isinstance(exctype, tuple) and exctype:
+            exctype = exctype[0]
         if isinstance(exctype, BaseException):
+            if val is not None:
+                raise TypeError("instance exception may not have a separate value")
             val = exctype
             exctype = type(val)
-        elif isinstance(exctype, type) and not (
-            isinstance(val, BaseException) and issubclass(type(val), exctype)
-        ):
-            # As PyErr_NormalizeException() does.
-            if val is None:
-                val = exctype()
-            elif isinstance(val, tuple):
-                val = exctype(*val)
+        elif isinstance(exctype, type) and BaseException in exctype.__mro__:
+            if not isinstance(val, BaseException) or not issubclass(
+                type(val), exctype
+            ):
+                # As PyErr_NormalizeException() does.
+                if val is None:
+                    val = exctype()
+                elif isinstance(val, tuple):
+                    val = exctype(*val)
+                else:
+                    val = exctype(val)
+                if not isinstance(val, BaseException):
+                    raise TypeError(
+                        f"calling {exctype} should have returned an instance of "
+                        f"BaseException, not {type(val)}"
+                    )
             else:
-                val = exctype(val)
-        elif not isinstance(exctype, type):
+                exctype = type(val)
+        else:
             raise TypeError(
                 "exceptions must be classes or instances, not "
                 + type(exctype).__name__
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 1d1389d..2d23bbe 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -264,7 +264,7 @@ class ByteOp32(ByteOp27):
             exc = self.vm.pop()
         elif argc == 1:
             exc = self.vm.pop()
-        return self.do_raise(exc, cause, has_cause=argc == 2)
+        return self.do_raise(argc, exc, cause)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From d7ae74456e44819175282ffbbd5d9a169e04aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 87/87] fix: PyVMTraced made without naming the Python
 implementation

---
 xpython/vmtrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index bf621ca..b291529 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -5,10 +5,11 @@ This can be used in a debugger or profiler.
 import logging
 from copy import copy
 
-from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
+from xdis import PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
+from xdis.version_info import PYTHON_IMPLEMENTATION
 
 from xpython.pyobj import Frame, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
@@ -79,14 +80,14 @@ class PyVMTraced(PyVM):
         self,
         callback,
         python_version: tuple[int, ...]=PYTHON_VERSION_TRIPLE,
-        is_pypy: bool=IS_PYPY,
+        python_implementation=PYTHON_IMPLEMENTATION,
         vmtest_testing: bool=False,
         event_flags: int=PyVMEVENT_ALL,
         format_instruction_func=format_instruction,
     ) -> None:
         super().__init__(
             python_version,
-            is_pypy,
+            python_implementation,
             vmtest_testing,
             format_instruction_func=format_instruction_func,
         )
-- 
2.43.0

