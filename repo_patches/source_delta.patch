From 0186a4279cbee6fcc8215f82a21b1ba02f54f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 01/69] fix: convert_int_to_base32 returned an empty string for
 zero

---
 .../_820_strings_signatures_converters/base_16_32_convertors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythagoras/_820_strings_signatures_converters/base_16_32_convertors.py b/pythagoras/_820_strings_signatures_converters/base_16_32_convertors.py
index 783ce4c..d522833 100644
--- a/pythagoras/_820_strings_signatures_converters/base_16_32_convertors.py
+++ b/pythagoras/_820_strings_signatures_converters/base_16_32_convertors.py
@@ -26,6 +26,8 @@ def convert_int_to_base32(n: int) -> str:
     :param n: An integer.
     :return: A string representing the equivalent number in base 32.
     """
+    if n == 0:
+        return base32_alphabet[0]
     base32_str = ''
     while n > 0:
         base32_str = base32_alphabet[n & 31] + base32_str
-- 
2.43.0


From 5fcafd4a7261f25d984bf09d3e8a7cf909c6625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 02/69] fix: assert_ordinarity accepted asynchronous generator
 functions

---
 pythagoras/_040_ordinary_functions/assert_ordinarity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_040_ordinary_functions/assert_ordinarity.py b/pythagoras/_040_ordinary_functions/assert_ordinarity.py
index bf33a8d..0464960 100644
--- a/pythagoras/_040_ordinary_functions/assert_ordinarity.py
+++ b/pythagoras/_040_ordinary_functions/assert_ordinarity.py
@@ -52,7 +52,8 @@ def assert_ordinarity(a_func:Callable) -> None:
         f" But {name} accepts unlimited (nameless) positional arguments."
         )
 
-    assert not inspect.iscoroutinefunction(a_func), (
+    assert not (inspect.iscoroutinefunction(a_func)
+                or inspect.isasyncgenfunction(a_func)), (
         f"The function {name} can't be an async function,"
         " only regular functions are allowed."
         )
\ No newline at end of file
-- 
2.43.0


From 7b6589a0fd4704d82a11fa212f00bd63e5b1ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 03/69] fix: OverlappingMultiDict guards were local functions
 of __init__ and had no effect

---
 .../overlapping_multi_dict.py                 | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py b/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
index b120b37..3cfecbf 100644
--- a/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
+++ b/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
@@ -35,23 +35,23 @@ class OverlappingMultiDict:
                 ,**individual_subdicts_params[subdict_name]
                 ,"file_type":subdict_name})
 
-        def __getstate__(self):
-            raise NotAllowedError("This object should never be pickled")
-
-        def __setstate__(self, state):
-            raise NotAllowedError("This object should never be pickled")
-
-        def __getitem__(self, key):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
-
-        def __setitem__(self, key, value):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
-
-        def __delitem__(self, key):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
\ No newline at end of file
+    def __getstate__(self):
+        raise NotAllowedError("This object should never be pickled")
+
+    def __setstate__(self, state):
+        raise NotAllowedError("This object should never be pickled")
+
+    def __getitem__(self, key):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
+
+    def __setitem__(self, key, value):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
+
+    def __delitem__(self, key):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
\ No newline at end of file
-- 
2.43.0


From e09c1ecf41b7de97c84a7c9d723d43bee1c05b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 04/69] fix: code normalization changed or rejected multi-line
 string literals

---
 .../code_normalizer_implementation.py         | 33 +++++++------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 00c5f76..06194d1 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -48,29 +48,18 @@ def __get_normalized_function_source__(
     else:
         assert callable(a_func) or isinstance(a_func, str)
 
-    code_lines = code.splitlines()
-
-    code_no_empty_lines = []
-    for line in code_lines:
-        if set(line)<=set(" \t"):
-            continue
-        code_no_empty_lines.append(line)
-
-    # Fix indent for functions that are defined within other functions;
-    # most frequently it is used for tests.
-    first_line_no_indent = code_no_empty_lines[0].lstrip()
-    n_chars_to_remove = len(code_no_empty_lines[0]) - len(first_line_no_indent)
-    chars_to_remove = code_no_empty_lines[0][:n_chars_to_remove]
-    code_clean_version = []
-    for line in code_no_empty_lines:
-        assert line.startswith(chars_to_remove)
-        cleaned_line = line[n_chars_to_remove:]
-        code_clean_version.append(cleaned_line)
-
-    code_clean_version = "\n".join(code_clean_version)
+    # Functions, defined within other functions, are indented;
+    # most frequently it is used for tests. The source code must not be
+    # de-indented line by line: it would change multi-line string literals.
+    first_line = [line for line in code.split("\n") if line.strip()][0]
+    if first_line[0] in " \t":
+        code_ast = ast.parse("if True:\n" + code)
+        assert len(code_ast.body) == 1
+        code_ast.body = code_ast.body[0].body
+    else:
+        code_ast = ast.parse(code)
     if a_func_name is None:
-        a_func_name = get_function_name_from_source(code_clean_version)
-    code_ast = ast.parse(code_clean_version)
+        a_func_name = get_function_name_from_source(code)
 
     assert isinstance(code_ast, ast.Module)
     assert isinstance(code_ast.body[0], ast.FunctionDef),(
-- 
2.43.0


From 4f7de3a1ca193c95b1244abde78b2c62a440fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 05/69] fix: code normalization was not idempotent for
 consecutive leading strings

---
 .../code_normalizer_implementation.py               | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 06194d1..54de980 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -111,15 +111,10 @@ def __get_normalized_function_source__(
             # remove return annotation from function definitions
             node.returns = None
 
-        if not len(node.body):
-            continue
-        if not isinstance(node.body[0], ast.Expr):
-            continue
-        if not hasattr(node.body[0], 'value'):
-            continue
-        if not isinstance(node.body[0].value, ast.Str):
-            continue
-        node.body = node.body[1:]
+        # After a docstring is removed, the next string becomes a docstring
+        while (len(node.body) and isinstance(node.body[0], ast.Expr)
+                and isinstance(node.body[0].value, ast.Str)):
+            node.body = node.body[1:]
         if len(node.body) < 1:
             node.body.append(ast.Pass())
         # TODO: compare with the source for ast.candidate_docstring()
-- 
2.43.0


From 68e46b365316c8f349749de3234b88feb17582f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 06/69] fix: code normalization crashed on annotated variable
 declarations

---
 .../code_normalizer_implementation.py         | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 54de980..bb870fb 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -24,6 +24,25 @@ from pythagoras._040_ordinary_functions.assert_ordinarity import assert_ordinari
 import pythagoras as pth
 
 
+class _VariableAnnotationsRemover(ast.NodeTransformer):
+    """Replaces annotated variable declarations with regular assignments.
+
+    Annotations inside class bodies are preserved, because they define
+    fields of dataclasses, named tuples, etc.
+    """
+
+    def visit_ClassDef(self, node):
+        for statement in node.body:
+            if not isinstance(statement, ast.AnnAssign):
+                self.visit(statement)
+        return node
+
+    def visit_AnnAssign(self, node):
+        if node.value is None:
+            return ast.Pass()
+        return ast.Assign(targets=[node.target], value=node.value)
+
+
 def __get_normalized_function_source__(
         a_func:Callable|str
         , drop_pth_decorators:bool = False
@@ -89,14 +108,13 @@ def __get_normalized_function_source__(
         assert pth_dec_counter == 1
         code_ast.body[0].decorator_list = []
 
+    # Remove type annotations from variable declarations.
+    code_ast = ast.fix_missing_locations(
+        _VariableAnnotationsRemover().visit(code_ast))
+
     # Remove docstrings.
     for node in ast.walk(code_ast):
 
-        if isinstance(node, ast.AnnAssign):
-            # remove type annotation from variable declarations
-            node.annotation = None
-            continue
-
         if isinstance(node, ast.arg):
             # argument annotations in functions
             node.annotation = None
-- 
2.43.0


From 3416a02ff32bbe4f0abbaba4f80e39ba125bd143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 07/69] fix: autonomy checks rejected keyword-only and
 positional-only parameters

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index f6e0af6..830fa91 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -31,7 +31,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         if self.func_nesting_level == 0:
             self.names.function = node.name
             self.func_nesting_level += 1
-            for arg in node.args.args:
+            for arg in (node.args.posonlyargs + node.args.args
+                        + node.args.kwonlyargs):
                 self.names.local |= {arg.arg}
             if node.args.vararg:
                 self.names.local |= {node.args.vararg.arg}
-- 
2.43.0


From d54161a349031ebc4328fc2d1b95f3708f366636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 08/69] fix: autonomy checks rejected names bound by dotted
 imports

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 830fa91..98d8743 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -120,7 +120,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            name = alias.asname if alias.asname else alias.name
+            # "import a.b" binds "a", while "import a.b as c" binds "c"
+            name = alias.asname if alias.asname else alias.name.split('.')[0]
             self.names.imported |= {name}
             self.imported_packages_deep |= {alias.name.split('.')[0]}
         self.names.accessible |= self.names.imported
-- 
2.43.0


From f1ce76af6a140ccc7001ae9a4ebcad529fb7c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 09/69] fix: autonomy checks rejected recursive and mutually
 recursive nested functions

---
 .../_060_autonomous_functions/names_usage_analyzer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 98d8743..c8380ac 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -14,6 +14,15 @@ class NamesUsedInFunction:
         self.unclassified_deep = set() # names, used inside the function and/or called subfunctions, while not explicitly imported, amd not explicitly marked as nonlocal / global
         self.accessible = set() # all names, currently accessable within the function
 
+def _definitions_within_scope(node):
+    """Names of all functions and classes, defined directly in a scope."""
+    for child in ast.iter_child_nodes(node):
+        if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
+            yield child.name
+        elif not isinstance(child, ast.Lambda):
+            yield from _definitions_within_scope(child)
+
+
 class NamesUsageAnalyzer(ast.NodeVisitor):
     """Collect data needed to analyze function autonomy.
 
@@ -39,6 +48,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             if node.args.kwarg:
                 self.names.local |= {node.args.kwarg.arg}
             self.names.accessible |= self.names.local
+            # nested functions can call each other and themselves
+            self.names.accessible |= set(_definitions_within_scope(node))
             self.generic_visit(node)
             self.func_nesting_level -= 1
         else:
-- 
2.43.0


From a88568fc7122f8249696c8d65bd92f1f071b3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 10/69] fix: autonomy checks rejected functions with nested
 classes

---
 .../_060_autonomous_functions/names_usage_analyzer.py     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index c8380ac..cca06a9 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -66,6 +66,14 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             # self.names.imported is not changing
             # self.n_yelds is not changing
 
+    def visit_ClassDef(self, node):
+        self.names.local |= {node.name}
+        self.names.accessible |= {node.name}
+        # names, bound in a class body, are not visible outside the body
+        local, accessible = set(self.names.local), set(self.names.accessible)
+        self.generic_visit(node)
+        self.names.local, self.names.accessible = local, accessible
+
     def visit_Name(self, node):
         if isinstance(node.ctx, ast.Load):
             if node.id not in self.names.accessible:
-- 
2.43.0


From 074f5eb40ae401bda0fc0e8ecbc172a6dfc94381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 11/69] fix: autonomy checks rejected functions that use
 lambdas with parameters

---
 .../_060_autonomous_functions/names_usage_analyzer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index cca06a9..10cca60 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -66,6 +66,17 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             # self.names.imported is not changing
             # self.n_yelds is not changing
 
+    def visit_Lambda(self, node):
+        for default in node.args.defaults + node.args.kw_defaults:
+            if default is not None:
+                self.visit(default)
+        args = node.args.posonlyargs + node.args.args + node.args.kwonlyargs
+        args += [a for a in (node.args.vararg, node.args.kwarg) if a]
+        accessible = set(self.names.accessible)
+        self.names.accessible |= {a.arg for a in args}
+        self.visit(node.body)
+        self.names.accessible = accessible
+
     def visit_ClassDef(self, node):
         self.names.local |= {node.name}
         self.names.accessible |= {node.name}
-- 
2.43.0


From 0911e4cb64192dcc79871381fad0c8848cc757cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 12/69] fix: autonomy checks rejected names bound by except*
 clauses

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 10cca60..4f23274 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -113,6 +113,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             self.names.accessible |= {handler.name}
         self.generic_visit(node)
 
+    visit_TryStar = visit_Try
+
     def visit_comprehension(self, node):
         if isinstance(node.target, (ast.Tuple, ast.List)):
             all_targets =node.target.elts
-- 
2.43.0


From 2130b8a7f09f493287fa11a3263505e5b17921ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 13/69] fix: the previous sys.excepthook was never restored

---
 pythagoras/_020_logging_portals/logging_portals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 1c3f14f..2854de3 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -29,6 +29,7 @@ def pth_excepthandler(_, exc_type, exc_value
 
 _previous_excepthook = None
 def register_systemwide_uncaught_exception_handlers() -> None:
+    global _previous_excepthook
     if not is_executed_in_notebook():
         _previous_excepthook = sys.excepthook
         sys.excepthook = pth_excepthook
-- 
2.43.0


From 0f98ea99ae46cf07d3168a68b87bc75a04de76bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 14/69] fix: uncaught exceptions were not logged, handled ones
 could be logged by mistake

---
 pythagoras/_020_logging_portals/logging_portals.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 2854de3..49d26a6 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -19,12 +19,12 @@ from pythagoras._820_strings_signatures_converters.random_signatures import (
 
 
 def pth_excepthook(exc_type, exc_value, trace_back) -> None:
-    LoggingPortal._exception_logger()
+    LoggingPortal._log_exception(exc_type, exc_value, trace_back)
     sys.__excepthook__(exc_type, exc_value, trace_back)
 
 def pth_excepthandler(_, exc_type, exc_value
                     , trace_back, tb_offset=None) -> None:
-    LoggingPortal._exception_logger()
+    LoggingPortal._log_exception(exc_type, exc_value, trace_back)
     traceback.print_exception(exc_type, exc_value, trace_back)
 
 _previous_excepthook = None
@@ -309,8 +309,10 @@ class LoggingPortal(BasicPortal):
 
     @staticmethod
     def _exception_logger():
-        exc_type, exc_value, trace_back = sys.exc_info()
+        LoggingPortal._log_exception(*sys.exc_info())
 
+    @staticmethod
+    def _log_exception(exc_type, exc_value, trace_back):
         if not LoggingPortal._exception_needs_to_be_processed(
                 exc_type, exc_value, trace_back):
             return
@@ -325,7 +327,7 @@ class LoggingPortal(BasicPortal):
 
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        LoggingPortal._exception_logger()
+        LoggingPortal._log_exception(exc_type, exc_val, exc_tb)
         super().__exit__(exc_type, exc_val, exc_tb)
         return False
 
-- 
2.43.0


From 1fb0dae0a702dc834af56bd8b58cef7a98972f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 15/69] fix: an address did not search the active portal when
 it belonged to another one

---
 pythagoras/_030_data_portals/value_addresses.py     | 8 ++++++--
 pythagoras/_070_pure_functions/pure_core_classes.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_030_data_portals/value_addresses.py b/pythagoras/_030_data_portals/value_addresses.py
index 19cef26..0fac14b 100644
--- a/pythagoras/_030_data_portals/value_addresses.py
+++ b/pythagoras/_030_data_portals/value_addresses.py
@@ -86,7 +86,9 @@ class ValueAddr(HashAddr):
 
     @property
     def _ready_in_noncurrent_portals(self) -> bool:
-        for portal in DataPortal.get_noncurrent_portals():
+        with self.portal:
+            portals_to_search = DataPortal.get_noncurrent_portals()
+        for portal in portals_to_search:
             with portal:
                 if self in portal.value_store:
                     data = portal.value_store[self]
@@ -125,7 +127,9 @@ class ValueAddr(HashAddr):
 
     def get_from_noncurrent_portals(self, timeout:Optional[int] = None) -> Any:
         """Retrieve value, referenced by the address, from noncurrent portals"""
-        for portal in DataPortal.get_noncurrent_portals():
+        with self.portal:
+            portals_to_search = DataPortal.get_noncurrent_portals()
+        for portal in portals_to_search:
             try:
                 with portal:
                     result = portal.value_store[self]
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index af5b3fd..8742ada 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -605,7 +605,9 @@ class PureFnExecutionResultAddr(HashAddr):
 
     @property
     def _ready_in_noncurrent_portals(self) -> bool:
-        for portal in PureCodePortal.get_noncurrent_portals():
+        with self.portal:
+            portals_to_search = PureCodePortal.get_noncurrent_portals()
+        for portal in portals_to_search:
             with portal:
                 if self in portal.execution_results:
                     addr = portal.execution_results[self]
-- 
2.43.0


From df9fe62f7f604ddefbe3ed4d1821b0946cce5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 16/69] fix: addresses defined __eq__ without __hash__ and were
 unhashable

---
 pythagoras/_030_data_portals/hash_addresses.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_030_data_portals/hash_addresses.py b/pythagoras/_030_data_portals/hash_addresses.py
index 40ed84c..7e0eefc 100644
--- a/pythagoras/_030_data_portals/hash_addresses.py
+++ b/pythagoras/_030_data_portals/hash_addresses.py
@@ -109,4 +109,8 @@ class HashAddr(SafeStrTuple, PortalAwareClass, ABC):
 
     def __ne__(self, other) -> bool:
         """Return self!=other. """
-        return not (self == other)
\ No newline at end of file
+        return not (self == other)
+
+    def __hash__(self) -> int:
+        """Return hash(self), consistent with __eq__. """
+        return hash((type(self), self.str_chain))
\ No newline at end of file
-- 
2.43.0


From 55a4f3e7a67d400f23a18f7cc75eb3467bb5cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 17/69] fix: name of a function was misread from sources with
 strings, tabs, continuations, type parameters

---
 .../_040_ordinary_functions/function_name.py     | 16 +++++++++-------
 .../ordinary_core_classes.py                     |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/function_name.py b/pythagoras/_040_ordinary_functions/function_name.py
index 2e4750e..bb64780 100644
--- a/pythagoras/_040_ordinary_functions/function_name.py
+++ b/pythagoras/_040_ordinary_functions/function_name.py
@@ -1,12 +1,14 @@
+import io
+import tokenize
 
 
 def get_function_name_from_source(a_func: str) -> str:
     """Return the name of a function from its source code."""
-    lines = a_func.split('\n')
-    for line in lines:
-        stripped_line = line.strip()
-        if stripped_line.startswith('def '):
-            func_name_end = stripped_line.find('(')
-            func_name = stripped_line[3:func_name_end]
-            return func_name.strip()
+    try:
+        tokens = tokenize.generate_tokens(io.StringIO(a_func).readline)
+        for token in tokens:
+            if token.type == tokenize.NAME and token.string == "def":
+                return next(tokens).string
+    except (tokenize.TokenError, SyntaxError):
+        pass
     raise ValueError(f"Can't find function name in {a_func=}")
diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index 26f12f6..9dec3ea 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -117,7 +117,7 @@ class OrdinaryFn(PortalAwareClass):
         self._result_var_name = "result"+self.fn_name+fn_hash_id
         self._tmp_fn_name = "tmp_func_"+self.fn_name+fn_hash_id
         source_to_exec = source_to_exec.replace(
-            " " + self.fn_name + "(", " " + self._tmp_fn_name + "(", 1)
+            "def " + self.fn_name, "def " + self._tmp_fn_name, 1)
         source_to_exec += f"\n\n{self._result_var_name} = "
         source_to_exec += f"{self._tmp_fn_name}(**{self._kwargs_var_name})"
         self._fn_bytecode = self._compile(
-- 
2.43.0


From 7a0df9274ba3b97ccf24fd2dd3632b965b9acf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 18/69] fix: log handlers got records below their levels while
 output was captured

---
 pythagoras/_810_output_manipulators/output_capturer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index 23961d8..6abea42 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -70,7 +70,8 @@ class OutputCapturer:
             msg = self.format(record)
             self.buffer.write(msg + '\n')
             for handler in self.original_handlers:
-                handler.emit(record)
+                if record.levelno >= handler.level:
+                    handler.handle(record)
 
     def __init__(self):
         """ Initialize the OutputCapturer object.
-- 
2.43.0


From 60353f72fb2849f5f3206f17ad4a71d5f841a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 19/69] fix: streams of the output capturer lacked writelines,
 isatty, encoding, etc.

---
 .../_810_output_manipulators/output_capturer.py    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index 6abea42..2ce771c 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -35,8 +35,20 @@ class OutputCapturer:
             Args:
                 data: The data to be written.
             """
-            self.original.write(data)
+            result = self.original.write(data)
             self.buffer.write(data)
+            return result
+
+        def writelines(self, lines):
+            """Write a list of lines to both the original stream and the buffer.
+            """
+            for line in lines:
+                self.write(line)
+
+        def __getattr__(self, name):
+            """Get any other attribute (e.g. encoding) of the original stream.
+            """
+            return getattr(self.original, name)
 
         def flush(self):
             """Flush original stream and buffer to ensure all data is written.
-- 
2.43.0


From f8d6d53d2ee37609e793db70fde94425dcb1dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 20/69] fix: autonomy checks missed names used in default
 values and decorators of nested functions

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 4f23274..d33c879 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -37,6 +37,11 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.n_yelds = 0
 
     def visit_FunctionDef(self, node):
+        # decorators and default values belong to the enclosing scope
+        for expr in (node.decorator_list + node.args.defaults
+                     + node.args.kw_defaults):
+            if expr is not None:
+                self.visit(expr)
         if self.func_nesting_level == 0:
             self.names.function = node.name
             self.func_nesting_level += 1
-- 
2.43.0


From 36069a46252cd030a83a09d6c04df320729ad337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 21/69] fix: autonomy checks rejected nested asynchronous
 functions

---
 .../_060_autonomous_functions/names_usage_analyzer.py      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index d33c879..f922b81 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -17,7 +17,8 @@ class NamesUsedInFunction:
 def _definitions_within_scope(node):
     """Names of all functions and classes, defined directly in a scope."""
     for child in ast.iter_child_nodes(node):
-        if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
+        if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef
+                              , ast.ClassDef)):
             yield child.name
         elif not isinstance(child, ast.Lambda):
             yield from _definitions_within_scope(child)
@@ -71,6 +72,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             # self.names.imported is not changing
             # self.n_yelds is not changing
 
+    visit_AsyncFunctionDef = visit_FunctionDef
+
     def visit_Lambda(self, node):
         for default in node.args.defaults + node.args.kw_defaults:
             if default is not None:
@@ -135,6 +138,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
     def visit_For(self, node):
         self.visit_comprehension(node)
 
+    visit_AsyncFor = visit_For
+
     def visit_ListComp(self, node):
         for gen in node.generators:
             self.visit_comprehension(gen)
-- 
2.43.0


From 1a0b4593576635db337ac971b0a862c1ab53b7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 22/69] fix: 'from a.b import c' was reported as an import of
 package b

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index f922b81..e626f19 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -170,7 +170,7 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.generic_visit(node)
 
     def visit_ImportFrom(self, node):
-        self.imported_packages_deep |= {node.module.split('.')[-1]}
+        self.imported_packages_deep |= {node.module.split('.')[0]}
         for alias in node.names:
             name = alias.asname if alias.asname else alias.name
             self.names.imported |= {name}
-- 
2.43.0


From 5cb95e9e8086d7b0f33b15172dbf4b2c2b4afef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 23/69] fix: autonomy checks took names bound in a class body
 for visible in its methods

---
 .../names_usage_analyzer.py                   | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index e626f19..969d995 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -36,6 +36,7 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.imported_packages_deep = set()
         self.func_nesting_level = 0
         self.n_yelds = 0
+        self.visible_to_nested = None # None means all accessible names
 
     def visit_FunctionDef(self, node):
         # decorators and default values belong to the enclosing scope
@@ -61,11 +62,14 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         else:
             nested = NamesUsageAnalyzer()
             nested.visit(node)
+            visible = self.visible_to_nested
+            if visible is None:
+                visible = self.names.accessible
             self.imported_packages_deep |= nested.imported_packages_deep
-            nested.names.explicitly_nonlocal_unbound_deep -= self.names.accessible
+            nested.names.explicitly_nonlocal_unbound_deep -= visible
             self.names.explicitly_nonlocal_unbound_deep |= nested.names.explicitly_nonlocal_unbound_deep
             self.names.explicitly_global_unbound_deep |= nested.names.explicitly_global_unbound_deep
-            nested.names.unclassified_deep -= self.names.accessible
+            nested.names.unclassified_deep -= visible
             self.names.unclassified_deep |= nested.names.unclassified_deep
             self.names.local |= {node.name}
             self.names.accessible |= {node.name}
@@ -80,17 +84,24 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
                 self.visit(default)
         args = node.args.posonlyargs + node.args.args + node.args.kwonlyargs
         args += [a for a in (node.args.vararg, node.args.kwarg) if a]
-        accessible = set(self.names.accessible)
-        self.names.accessible |= {a.arg for a in args}
+        accessible = self.names.accessible
+        visible = self.visible_to_nested
+        if visible is None:
+            visible = accessible
+        self.names.accessible = visible | {a.arg for a in args}
         self.visit(node.body)
         self.names.accessible = accessible
 
     def visit_ClassDef(self, node):
         self.names.local |= {node.name}
         self.names.accessible |= {node.name}
-        # names, bound in a class body, are not visible outside the body
+        # names, bound in a class body, are not visible outside the body,
+        # and are not visible in functions, defined in the body
         local, accessible = set(self.names.local), set(self.names.accessible)
+        visible_to_nested = self.visible_to_nested
+        self.visible_to_nested = accessible
         self.generic_visit(node)
+        self.visible_to_nested = visible_to_nested
         self.names.local, self.names.accessible = local, accessible
 
     def visit_Name(self, node):
-- 
2.43.0


From 9e95eeaafa85fbd04729353f83321e1a1502f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 24/69] fix: autonomy checks missed the iterable of a
 comprehension over a name like its variable

---
 .../_060_autonomous_functions/names_usage_analyzer.py     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 969d995..05a75f8 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -152,21 +152,29 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
     visit_AsyncFor = visit_For
 
     def visit_ListComp(self, node):
+        # the first iterable is evaluated in the enclosing scope
+        self.visit(node.generators[0].iter)
         for gen in node.generators:
             self.visit_comprehension(gen)
         self.generic_visit(node)
 
     def visit_SetComp(self, node):
+        # the first iterable is evaluated in the enclosing scope
+        self.visit(node.generators[0].iter)
         for gen in node.generators:
             self.visit_comprehension(gen)
         self.generic_visit(node)
 
     def visit_DictComp(self, node):
+        # the first iterable is evaluated in the enclosing scope
+        self.visit(node.generators[0].iter)
         for gen in node.generators:
             self.visit_comprehension(gen)
         self.generic_visit(node)
 
     def visit_GeneratorExp(self, node):
+        # the first iterable is evaluated in the enclosing scope
+        self.visit(node.generators[0].iter)
         for gen in node.generators:
             self.visit_comprehension(gen)
         self.generic_visit(node)
-- 
2.43.0


From 5a7fc564ed54de96244f091656c543f446842a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 25/69] fix: autonomy checks missed nonlocal declarations of
 names the enclosing function only reads

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 05a75f8..1180927 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -66,7 +66,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             if visible is None:
                 visible = self.names.accessible
             self.imported_packages_deep |= nested.imported_packages_deep
-            nested.names.explicitly_nonlocal_unbound_deep -= visible
+            nested.names.explicitly_nonlocal_unbound_deep -= (
+                visible - self.names.unclassified_deep)
             self.names.explicitly_nonlocal_unbound_deep |= nested.names.explicitly_nonlocal_unbound_deep
             self.names.explicitly_global_unbound_deep |= nested.names.explicitly_global_unbound_deep
             nested.names.unclassified_deep -= visible
-- 
2.43.0


From d11b9ae5ffed00e38ca214207cb60e32b3a664d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 26/69] fix: functions with a parameter named self could not be
 called

---
 .../_040_ordinary_functions/ordinary_core_classes.py   |  4 ++--
 .../autonomous_core_classes.py                         |  2 +-
 pythagoras/_070_pure_functions/kw_args.py              |  2 +-
 pythagoras/_070_pure_functions/pure_core_classes.py    | 10 +++++-----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index 9dec3ea..415a1ce 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -125,7 +125,7 @@ class OrdinaryFn(PortalAwareClass):
         if type(self) == OrdinaryFn:
             self._fn_fully_registered = True
 
-    def __call__(self,* args, **kwargs) -> Any:
+    def __call__(self, /, *args, **kwargs) -> Any:
         assert len(args) == 0, (f"Function {self.fn_name} can't"
             + " be called with positional arguments,"
             + " only keyword arguments are allowed.")
@@ -172,7 +172,7 @@ class OrdinaryFn(PortalAwareClass):
             , exception_prefixes=exception_prefixes
             , exception_extra_data_to_persist=exception_extra_data_to_persist)
 
-    def execute(self,**kwargs):
+    def execute(self, /, **kwargs):
         try:
             self._complete_fn_registration()
             names_dict = self._available_names()
diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index bf2f55c..2ec71e4 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -311,7 +311,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         result |= super()._extra_exception_data()
         return result
 
-    def execute(self, **kwargs) -> Any:
+    def execute(self, /, **kwargs) -> Any:
         with self.portal as portal:
             return SafeFn.execute(self, **kwargs)
 
diff --git a/pythagoras/_070_pure_functions/kw_args.py b/pythagoras/_070_pure_functions/kw_args.py
index 4c8a255..18b43f4 100644
--- a/pythagoras/_070_pure_functions/kw_args.py
+++ b/pythagoras/_070_pure_functions/kw_args.py
@@ -12,7 +12,7 @@ class SortedKwArgs(dict):
     for the same lists of arguments.
     """
 
-    def __init__(self, **kargs):
+    def __init__(self, /, **kargs):
         """Sort the keys in the dictionary."""
         super().__init__()
         for k in sorted(kargs):
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 8742ada..39ba993 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -186,7 +186,7 @@ class PureFn(AutonomousFn):
         return result_names
 
 
-    def can_be_executed(self,**kwargs) -> bool:
+    def can_be_executed(self, /, **kwargs) -> bool:
         """Indicates if the function can be executed in the current environment.
         """
         with self.portal:
@@ -371,14 +371,14 @@ class PureFn(AutonomousFn):
         if not hasattr(island[name], "_augmented_source_code"):
             island[name]._augmented_source_code = None
 
-    def get_address(self, **kwargs) -> PureFnExecutionResultAddr:
+    def get_address(self, /, **kwargs) -> PureFnExecutionResultAddr:
         with self.portal:
             packed_kwargs = SortedKwArgs(**kwargs).pack(self.portal)
             result_address = PureFnExecutionResultAddr(self, packed_kwargs)
             return result_address
 
 
-    def swarm(self, **kwargs) -> PureFnExecutionResultAddr:
+    def swarm(self, /, **kwargs) -> PureFnExecutionResultAddr:
         """ Request execution of the function with the given arguments.
 
         The function is executed in the background. The result can be
@@ -389,7 +389,7 @@ class PureFn(AutonomousFn):
             result_address.request_execution()
             return result_address
 
-    def run(self, **kwargs) -> PureFnExecutionResultAddr:
+    def run(self, /, **kwargs) -> PureFnExecutionResultAddr:
         """ Execute the function with the given arguments.
 
         The function is executed immediately. The result can be
@@ -401,7 +401,7 @@ class PureFn(AutonomousFn):
             return result_address
 
 
-    def execute(self, **kwargs) -> Any:
+    def execute(self, /, **kwargs) -> Any:
         """ Execute the function with the given arguments.
 
         The function is executed immediately and the result is returned.
-- 
2.43.0


From f6df17403c1f34228783a18eb401051bfc42efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 27/69] fix: decorator @pth.safe() could not be used

---
 pythagoras/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/__init__.py b/pythagoras/__init__.py
index 3351ed5..3470660 100644
--- a/pythagoras/__init__.py
+++ b/pythagoras/__init__.py
@@ -56,6 +56,7 @@ primary_decorators = {d.__name__:d for d in [
     ]}
 all_decorators = {d.__name__:d for d in [
     ordinary
+    , safe
     , autonomous
     , strictly_autonomous
     , pure
-- 
2.43.0


From 579ca6b996c85cf0c2f48713798309f6a312bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 28/69] fix: an address made from a not ready address claimed
 to be ready

---
 pythagoras/_030_data_portals/value_addresses.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pythagoras/_030_data_portals/value_addresses.py b/pythagoras/_030_data_portals/value_addresses.py
index 0fac14b..5fbdc1c 100644
--- a/pythagoras/_030_data_portals/value_addresses.py
+++ b/pythagoras/_030_data_portals/value_addresses.py
@@ -44,7 +44,6 @@ class ValueAddr(HashAddr):
                         not self in portal.value_store):
                     data = data_value_addr.get()
                     portal.value_store[self] = data
-                self._ready = True
                 return
 
         assert not isinstance(data, HashAddr), (
-- 
2.43.0


From b5bb29106dcf4c4a83c6d606d9b2c9320d4a0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 29/69] fix: a guard's refusal surfaced as AttributeError and
 left the portal active

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 39ba993..9c39a88 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -969,7 +969,7 @@ class PureFnExecutionFrame(PortalAwareClass):
             self.fn_address + ["results", self.session_id]] = result
 
     def __exit__(self, exc_type, exc_value, trace_back):
-        self.output_capturer.__exit__(exc_type, exc_value, traceback)
+        self.output_capturer.__exit__(exc_type, exc_value, trace_back)
 
         output_id = self.session_id+"_output"
         execution_outputs = self.fn_address.execution_outputs
@@ -978,7 +978,7 @@ class PureFnExecutionFrame(PortalAwareClass):
         # self.register_exception(
         #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
 
-        self.portal.__exit__(exc_type, exc_value, traceback)
+        self.portal.__exit__(exc_type, exc_value, trace_back)
         self.fn.call_stack.pop()
 
 
-- 
2.43.0


From 268688530d30a22636f5dbc6ab5c53d477f30b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 30/69] fix: a storage failure while recording a run or a crash
 left portals active and output captured

---
 .../_020_logging_portals/logging_portals.py   |  6 +++--
 .../_070_pure_functions/pure_core_classes.py  | 23 ++++++++++++-------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 49d26a6..cf49168 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -327,8 +327,10 @@ class LoggingPortal(BasicPortal):
 
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        LoggingPortal._log_exception(exc_type, exc_val, exc_tb)
-        super().__exit__(exc_type, exc_val, exc_tb)
+        try:
+            LoggingPortal._log_exception(exc_type, exc_val, exc_tb)
+        finally:
+            super().__exit__(exc_type, exc_val, exc_tb)
         return False
 
     @staticmethod
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 9c39a88..ea5d6af 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import os
+import sys
 import time
 import traceback
 from copy import copy
@@ -951,7 +952,11 @@ class PureFnExecutionFrame(PortalAwareClass):
         self.portal.__enter__()
         self.output_capturer.__enter__()
         self.fn.call_stack.append(self)
-        self.register_execution_attempt()
+        try:
+            self.register_execution_attempt()
+        except BaseException:
+            self.__exit__(*sys.exc_info())
+            raise
         return self
 
     def register_execution_attempt(self):
@@ -971,15 +976,17 @@ class PureFnExecutionFrame(PortalAwareClass):
     def __exit__(self, exc_type, exc_value, trace_back):
         self.output_capturer.__exit__(exc_type, exc_value, trace_back)
 
-        output_id = self.session_id+"_output"
-        execution_outputs = self.fn_address.execution_outputs
-        execution_outputs[output_id] = self.output_capturer.get_output()
+        try:
+            output_id = self.session_id+"_output"
+            execution_outputs = self.fn_address.execution_outputs
+            execution_outputs[output_id] = self.output_capturer.get_output()
 
-        # self.register_exception(
-        #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
+            # self.register_exception(
+            #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
 
-        self.portal.__exit__(exc_type, exc_value, trace_back)
-        self.fn.call_stack.pop()
+        finally:
+            self.fn.call_stack.pop()
+            self.portal.__exit__(exc_type, exc_value, trace_back)
 
 
     def _extra_exception_data(self) -> dict:
-- 
2.43.0


From 5f7ab5a2bc5fc651b6304e2e95b0b943688f88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 31/69] fix: guards got addresses instead of values when a call
 was run by its address

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index ea5d6af..f33d8dd 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -425,8 +425,8 @@ class PureFn(AutonomousFn):
                 conduct_consistency_checks = True
             with PureFnExecutionFrame(output_address) as frame:
                 output_address.request_execution()
-                assert self.can_be_executed(**kwargs)
                 unpacked_kwargs = SortedKwArgs(**packed_kwargs).unpack()
+                assert self.can_be_executed(**unpacked_kwargs)
                 result = super().execute(**unpacked_kwargs)
                 result_addr = ValueAddr(result)
                 frame.register_execution_result(result_addr)
-- 
2.43.0


From df9d18f5d93df3937cb592c205e273f240d780bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 32/69] fix: a guarded function could not be restored where its
 guards were unknown

---
 .../_070_pure_functions/process_augmented_func_src.py      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/process_augmented_func_src.py b/pythagoras/_070_pure_functions/process_augmented_func_src.py
index 16e0b3a..2e034b0 100644
--- a/pythagoras/_070_pure_functions/process_augmented_func_src.py
+++ b/pythagoras/_070_pure_functions/process_augmented_func_src.py
@@ -34,8 +34,13 @@ def process_augmented_func_src(
 
     portal = DataPortal.get_best_portal_to_use(portal)
 
+    def has_guards(node) -> bool:
+        return any(k.arg == "guards" for d in getattr(node, "decorator_list", [])
+            for k in getattr(d, "keywords", []))
+
     tree = ast.parse(input_src)
-    for node in tree.body:
+    # guards must be known before the functions they protect
+    for node in sorted(tree.body, key=has_guards):
         assert isinstance(node, ast.FunctionDef), (
             "The augmented function code can only consist of"
             " function definitions.")
-- 
2.43.0


From 416c05f70bdd1f2cc0608aa29ac944f35aa0b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 33/69] fix: calling an autonomous function changed its
 decorator, and the addresses of calls depending on it

---
 .../_060_autonomous_functions/autonomous_core_classes.py  | 8 ++++++--
 pythagoras/_070_pure_functions/pure_core_classes.py       | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 2ec71e4..553534f 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -112,6 +112,7 @@ class AutonomousCodePortal(SafeCodePortal):
 class AutonomousFn(SafeFn, PortalAwareClass):
     island_name:str
     strictly_autonomous:bool
+    _declared_strictly_autonomous:bool
     _autonomous_fn_dependencies: list[str] | None
 
     def __init__(self, a_fn: Callable | str | OrdinaryFn
@@ -132,6 +133,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
         self.island_name = island_name
         self.strictly_autonomous = bool(strictly_autonomous)
+        self._declared_strictly_autonomous = self.strictly_autonomous
         if type(self) == AutonomousFn:
             self._begin_fn_registration()
 
@@ -139,6 +141,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         SafeFn.update(self, other)
         self.island_name = other.island_name
         self.strictly_autonomous = other.strictly_autonomous
+        self._declared_strictly_autonomous = other._declared_strictly_autonomous
         if other._fn_fully_registered:
             self._autonomous_fn_dependencies = other._autonomous_fn_dependencies
 
@@ -194,7 +197,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
     @property
     def fn_type(self) -> str:
-        if self.strictly_autonomous:
+        if self._declared_strictly_autonomous:
             return "strictly_autonomous"
         else:
             return "autonomous"
@@ -319,7 +322,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         draft_state = dict(fn_name = self.fn_name
             , fn_source_code = self.fn_source_code
             , island_name = self.island_name
-            , strictly_autonomous = self.strictly_autonomous
+            , strictly_autonomous = self._declared_strictly_autonomous
             , class_name = self.__class__.__name__)
         state = dict()
         for key in sorted(draft_state):
@@ -334,6 +337,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         self.fn_source_code = state["fn_source_code"]
         self.island_name = state["island_name"]
         self.strictly_autonomous = state["strictly_autonomous"]
+        self._declared_strictly_autonomous = self.strictly_autonomous
         self._fn_fully_registered = False
         self.capture_portal()
         self._begin_fn_registration()
\ No newline at end of file
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index f33d8dd..83bfd77 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -294,6 +294,7 @@ class PureFn(AutonomousFn):
         self.fn_source_code = state["fn_source_code"]
         self.island_name = state["island_name"]
         self.strictly_autonomous = state["strictly_autonomous"]
+        self._declared_strictly_autonomous = self.strictly_autonomous
         self.guards = state["guards"]
         self._augmented_source_code = None
         self._portal = None
-- 
2.43.0


From c434b2d7ae6643b708f9b6e423e9865a9ac0f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 34/69] fix: of two equal definitions of a function only one
 could be called

---
 .../_060_autonomous_functions/autonomous_core_classes.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 553534f..310ce66 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -241,9 +241,9 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         #     island[fn_name] = self
         assert self.fn_source_code == island[fn_name].fn_source_code
 
-        if island[fn_name]._fn_fully_registered:
-            if type(self) == AutonomousFn:
-                self.update(island[fn_name])
+        if island[fn_name] is not self:
+            island[fn_name]._complete_fn_registration()
+            self.update(island[fn_name])
             return
 
         SafeFn._complete_fn_registration(self)
-- 
2.43.0


From 68f1961471091021490d9319ab965d4d3a34c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 35/69] fix: portal-aware values fetched from another portal
 stayed bound to it

---
 pythagoras/_030_data_portals/value_addresses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythagoras/_030_data_portals/value_addresses.py b/pythagoras/_030_data_portals/value_addresses.py
index 5fbdc1c..9faf730 100644
--- a/pythagoras/_030_data_portals/value_addresses.py
+++ b/pythagoras/_030_data_portals/value_addresses.py
@@ -134,6 +134,8 @@ class ValueAddr(HashAddr):
                     result = portal.value_store[self]
                 with self.portal:
                     self.portal.value_store[self] = result
+                    # portal-aware values must belong to self.portal
+                    result = self.portal.value_store[self]
                 self._value = result
                 return result
             except:
-- 
2.43.0


From 208825233fef972bacef0d8619b111cd7e9b78c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 36/69] fix: a function that could not be registered failed
 with AttributeError instead of the reason

---
 pythagoras/_040_ordinary_functions/ordinary_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index 415a1ce..95fb3db 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -173,8 +173,8 @@ class OrdinaryFn(PortalAwareClass):
             , exception_extra_data_to_persist=exception_extra_data_to_persist)
 
     def execute(self, /, **kwargs):
+        self._complete_fn_registration()
         try:
-            self._complete_fn_registration()
             names_dict = self._available_names()
             names_dict[self._kwargs_var_name] = kwargs
             exec(self._fn_bytecode, names_dict, names_dict)
-- 
2.43.0


From f2051470d97d97da4308b89b0d8d0e9393a771a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 37/69] fix: a function called before its dependency was
 defined stayed refused for ever

---
 .../_060_autonomous_functions/autonomous_core_classes.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 310ce66..7a71fd2 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -266,14 +266,17 @@ class AutonomousFn(SafeFn, PortalAwareClass):
             island = portal.known_functions[self.island_name]
             prev_len_import_required = len(import_required)
             import_required -= set(island)
-            if len(import_required) == prev_len_import_required:
-                self.strictly_autonomous = True
+            uses_no_island_functions = (
+                len(import_required) == prev_len_import_required)
 
         assert len(import_required) ==0, (f"Function {self.fn_name}"
             + f" is not autonomous, it uses global"
             + f" objects {import_required}"
             + f" without importing them inside the function body")
 
+        if not self.strictly_autonomous:
+            self.strictly_autonomous = uses_no_island_functions
+
         all_functions_in_island = [f.fn_source_code for f in island.values()]
         deep_dependencies = explore_call_graph_deep(all_functions_in_island)
         dependencies = deep_dependencies[fn_name]
-- 
2.43.0


From 3efcf3ebe83a638d4947258325ed9a2c3feeb1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 38/69] fix: code defined after the first call of a function
 was not part of what its results depend on

---
 .../autonomous_core_classes.py                  | 17 ++++++++++++++++-
 .../_070_pure_functions/pure_core_classes.py    |  6 ++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 7a71fd2..b333d1c 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -114,6 +114,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
     strictly_autonomous:bool
     _declared_strictly_autonomous:bool
     _autonomous_fn_dependencies: list[str] | None
+    _n_functions_in_island: int
 
     def __init__(self, a_fn: Callable | str | OrdinaryFn
                  , island_name:str | None = None
@@ -144,6 +145,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         self._declared_strictly_autonomous = other._declared_strictly_autonomous
         if other._fn_fully_registered:
             self._autonomous_fn_dependencies = other._autonomous_fn_dependencies
+            self._n_functions_in_island = other._n_functions_in_island
 
 
     def _begin_fn_registration(self) -> None:
@@ -222,8 +224,20 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         return sorted(result)
 
 
+    def _is_registration_up_to_date(self) -> bool:
+        """Check if no functions were added since the registration.
+
+        A function, added to the island, may be needed by a dependency
+        of an already registered function.
+        """
+        if not self._fn_fully_registered:
+            return False
+        island = self.portal.known_functions[self.island_name]
+        return self._n_functions_in_island == len(island)
+
+
     def _complete_fn_registration(self)-> None:
-        if self._fn_fully_registered:
+        if self._is_registration_up_to_date():
             return
 
         portal = self.portal
@@ -285,6 +299,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         dependencies = sorted(dependencies)
         island[fn_name]._autonomous_fn_dependencies = dependencies
         self._autonomous_fn_dependencies = dependencies
+        self._n_functions_in_island = len(island)
 
         if type(self) == AutonomousFn:
             self._fn_fully_registered = True
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 83bfd77..e289245 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -218,7 +218,7 @@ class PureFn(AutonomousFn):
         return decorator_str
 
     def _complete_fn_registration(self):
-        if self._fn_fully_registered:
+        if self._is_registration_up_to_date():
             return
         super()._complete_fn_registration()
         island_name = self.island_name
@@ -241,7 +241,8 @@ class PureFn(AutonomousFn):
 
         name = self.fn_name
         assert hasattr(island[name], "_augmented_source_code")
-        if island[name]._augmented_source_code is None:
+        if (island[name]._augmented_source_code is None
+                or island[name]._fn_fully_registered):
             island[name]._augmented_source_code = augmented_code
         else:
             assert island[name]._augmented_source_code == augmented_code
@@ -312,6 +313,7 @@ class PureFn(AutonomousFn):
                 process_augmented_func_src(
                     state["augmented_fn_source_code"], portal=portal)
             else:
+                island[fn_name]._complete_fn_registration()
                 assert state["augmented_fn_source_code"] == (
                     island[fn_name]._augmented_source_code)
 
-- 
2.43.0


From 812fae071bc0e36ca1e6f396a62e6ecc13ee407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 39/69] fix: functions using an island function named like a
 builtin were refused

---
 .../autonomous_core_classes.py                      | 13 +++++--------
 pythagoras/_070_pure_functions/pure_core_classes.py |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index b333d1c..9766e36 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -270,26 +270,23 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         import_required = analyzer.names.explicitly_global_unbound_deep
         import_required |= analyzer.names.unclassified_deep
         import_required -= set(pth.primary_decorators)
+        used_island_functions = (import_required & set(island)) - {fn_name}
         builtin_names = set(dir(builtins))
         import_required -= builtin_names
         pth_names = set(retrieve_objs_available_inside_autonomous_functions())
         import_required -= pth_names
         import_required -= {fn_name}
         import_required -= {"self"} #TODO: replace with ._available_names() ???
-        if not self.strictly_autonomous:
-            island = portal.known_functions[self.island_name]
-            prev_len_import_required = len(import_required)
-            import_required -= set(island)
-            uses_no_island_functions = (
-                len(import_required) == prev_len_import_required)
+        if not self._declared_strictly_autonomous:
+            import_required -= used_island_functions
 
         assert len(import_required) ==0, (f"Function {self.fn_name}"
             + f" is not autonomous, it uses global"
             + f" objects {import_required}"
             + f" without importing them inside the function body")
 
-        if not self.strictly_autonomous:
-            self.strictly_autonomous = uses_no_island_functions
+        if not self._declared_strictly_autonomous:
+            self.strictly_autonomous = (len(used_island_functions) == 0)
 
         all_functions_in_island = [f.fn_source_code for f in island.values()]
         deep_dependencies = explore_call_graph_deep(all_functions_in_island)
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index e289245..300d4d8 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -295,7 +295,7 @@ class PureFn(AutonomousFn):
         self.fn_source_code = state["fn_source_code"]
         self.island_name = state["island_name"]
         self.strictly_autonomous = state["strictly_autonomous"]
-        self._declared_strictly_autonomous = self.strictly_autonomous
+        self._declared_strictly_autonomous = False
         self.guards = state["guards"]
         self._augmented_source_code = None
         self._portal = None
-- 
2.43.0


From fbf8150259fd4e913a26658d5aa1d32389db7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 40/69] fix: guards of the functions a pure function depends on
 were not part of what its results depend on

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 300d4d8..9c8c073 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -231,7 +231,10 @@ class PureFn(AutonomousFn):
         if self.guards is not None:
             full_dependencies += self.guards
         full_dependencies += self.dependencies
-        full_dependencies = sorted(full_dependencies)
+        for fn_name in self.dependencies:
+            if fn_name != self.fn_name:
+                full_dependencies += getattr(island[fn_name], "guards", None) or []
+        full_dependencies = sorted(set(full_dependencies))
 
         for fn_name in full_dependencies:
             f = island[fn_name]
-- 
2.43.0


From ded735fb8d30717f272cfc0f9cc3c4066b0a6caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 41/69] fix: a guard given by name could be a function that is
 not strictly autonomous

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 9c8c073..4c630e6 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -182,6 +182,8 @@ class PureFn(AutonomousFn):
             else:
                 assert isinstance(f, str)
                 assert f in island
+                island[f]._complete_fn_registration()
+                assert island[f].strictly_autonomous
                 result_names.append(f)
         result_names = sorted(result_names)
         return result_names
-- 
2.43.0


From 2214883eb8fa1c767ca81f1acfe030095dc17b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 42/69] fix: a result that arrived just before the deadline was
 reported as a timeout

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 4c630e6..2a11ee8 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -709,6 +709,7 @@ class PureFnExecutionResultAddr(HashAddr):
             else:
                 stop_time = None
             # start_time, stop_time and backoff_period are in seconds
+            waited_enough = False
 
             while True:
                 if self.ready:
@@ -717,6 +718,10 @@ class PureFnExecutionResultAddr(HashAddr):
                     self.drop_execution_request()
                     return self._result
                 else:
+                    # the result may have arrived during the last sleep,
+                    # hence the deadline is checked only after readiness
+                    if waited_enough:
+                        raise TimeoutError
                     time.sleep(backoff_period)
                     backoff_period *= 2.0
                     backoff_period += portal.entropy_infuser.uniform(-0.5, 0.5)
@@ -724,8 +729,7 @@ class PureFnExecutionResultAddr(HashAddr):
                         current_time = time.time()
                         if current_time + backoff_period > stop_time:
                             backoff_period = stop_time - current_time
-                        if current_time > stop_time:
-                            raise TimeoutError
+                        waited_enough = current_time > stop_time
                     backoff_period = max(1.0, backoff_period)
 
     @property
-- 
2.43.0


From e7fafa43308707013994bf53f03fdea66b24dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 43/69] fix: sessions left their identity behind, or withdrew
 the identity of a newer session

---
 .../_090_swarming_portals/swarming_portals.py | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index f20f66e..971b315 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -56,6 +56,7 @@ class SwarmingPortal(PureCodePortal):
 
         self.node_id = get_node_signature()
 
+        self._owns_runtime_id = runtime_id is None
         if runtime_id is None:
             runtime_id = get_random_signature()
             self.runtime_id = runtime_id
@@ -64,8 +65,8 @@ class SwarmingPortal(PureCodePortal):
             # for portal in self.get_noncurrent_portals():
             #     portal.compute_nodes.pkl[address] = runtime_id
 
-            if len(BasicPortal.all_portals) == 1:
-                atexit.register(_clean_runtime_id)
+            atexit.unregister(_clean_runtime_id)
+            atexit.register(_clean_runtime_id)
 
             summary = build_execution_environment_summary()
             address = [self.node_id, "execution_environment"]
@@ -128,9 +129,21 @@ class SwarmingPortal(PureCodePortal):
         return p
 
 
-    def _clear(self):
+    def _withdraw_runtime_id(self) -> None:
+        """Delete the runtime_id record, if it was published by this portal.
+
+        A record that was published by another process (e.g. a parent of this
+        background worker, or a newer session) must stay intact.
+        """
+        if not self._owns_runtime_id:
+            return
         address = [self.node_id, "runtime_id"]
-        self.compute_nodes.pkl.delete_if_exists(address)
+        if self.compute_nodes.pkl.get(address, None) == self.runtime_id:
+            self.compute_nodes.pkl.delete_if_exists(address)
+
+
+    def _clear(self):
+        self._withdraw_runtime_id()
         self.compute_nodes = None
         super()._clear()
 
@@ -230,14 +243,13 @@ def _clean_runtime_id():
     """ Clean runtime id.
 
     This function is called at the end of the program execution.
-    It deletes the runtime_id record from all portals.
+    It deletes the runtime_id records, published by this process,
+    from all portals.
     """
-    node_id = get_node_signature()
-    address = [node_id, "runtime_id"]
     for portal_id in BasicPortal.all_portals:
         try:
             portal = BasicPortal.all_portals[portal_id]
             with portal:
-                portal.compute_nodes.pkl.delete_if_exists(address)
+                portal._withdraw_runtime_id()
         except:
             pass
\ No newline at end of file
-- 
2.43.0


From cf13db9c8c863aa70c25e5fa1191fd89aa6ff992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 44/69] fix: background workers of the default portal could not
 start

---
 .../default_local_portal.py                   | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_100_default_local_portals/default_local_portal.py b/pythagoras/_100_default_local_portals/default_local_portal.py
index 812967f..af3069f 100644
--- a/pythagoras/_100_default_local_portals/default_local_portal.py
+++ b/pythagoras/_100_default_local_portals/default_local_portal.py
@@ -1,4 +1,6 @@
 from __future__ import annotations
+
+import parameterizable
 from persidict import FileDirDict
 
 from pythagoras._010_basic_portals import BasicPortal
@@ -14,7 +16,7 @@ class DefaultLocalPortal(SwarmingPortal):
     _default_local_portal_instance: DefaultLocalPortal | None = None
     _calls_counter = 0
 
-    def __new__(cls):
+    def __new__(cls, *args, **kwargs):
         """ Singleton pattern implementation for DefaultLocalPortal class.
 
         Returns the same instance of DefaultLocalPortal class if it has been
@@ -26,7 +28,10 @@ class DefaultLocalPortal(SwarmingPortal):
                 DefaultLocalPortal, cls).__new__(cls)
         return cls._default_local_portal_instance
 
-    def __init__(self):
+    def __init__(self
+                 , n_background_workers:int|None = 3
+                 , runtime_id:str|None = None
+                 ):
         if DefaultLocalPortal._calls_counter > 0:
             return
         DefaultLocalPortal._calls_counter += 1
@@ -34,12 +39,20 @@ class DefaultLocalPortal(SwarmingPortal):
             , root_dict = FileDirDict(BasicPortal.default_base_dir())
             , default_island_name = "Samos"
             , p_consistency_checks = 0
-            , n_background_workers=3
+            , n_background_workers=n_background_workers
+            , runtime_id=runtime_id
             )
 
+    def get_params(self) -> dict:
+        """Get the portal's configuration parameters"""
+        return dict(n_background_workers=self.n_background_workers
+            , runtime_id=self.runtime_id)
+
     @classmethod
     def _clear_all(cls):
         """Clear all data stored in the portal"""
         cls._default_local_portal_instance = None
         cls._calls_counter = 0
         super()._clear_all()
+
+parameterizable.register_parameterizable_class(DefaultLocalPortal)
-- 
2.43.0


From e8f119ed1fa86a355ff3f069be0b053edb690fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 45/69] fix: the default portal stayed unusable after all
 portals had been cleared

---
 .../_100_default_local_portals/default_local_portal.py    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_100_default_local_portals/default_local_portal.py b/pythagoras/_100_default_local_portals/default_local_portal.py
index af3069f..fb5e8b4 100644
--- a/pythagoras/_100_default_local_portals/default_local_portal.py
+++ b/pythagoras/_100_default_local_portals/default_local_portal.py
@@ -34,7 +34,6 @@ class DefaultLocalPortal(SwarmingPortal):
                  ):
         if DefaultLocalPortal._calls_counter > 0:
             return
-        DefaultLocalPortal._calls_counter += 1
         SwarmingPortal.__init__(self
             , root_dict = FileDirDict(BasicPortal.default_base_dir())
             , default_island_name = "Samos"
@@ -42,12 +41,19 @@ class DefaultLocalPortal(SwarmingPortal):
             , n_background_workers=n_background_workers
             , runtime_id=runtime_id
             )
+        DefaultLocalPortal._calls_counter += 1
 
     def get_params(self) -> dict:
         """Get the portal's configuration parameters"""
         return dict(n_background_workers=self.n_background_workers
             , runtime_id=self.runtime_id)
 
+    def _clear(self):
+        """Clear the portal's state, so that it can be created anew"""
+        DefaultLocalPortal._default_local_portal_instance = None
+        DefaultLocalPortal._calls_counter = 0
+        super()._clear()
+
     @classmethod
     def _clear_all(cls):
         """Clear all data stored in the portal"""
-- 
2.43.0


From 87b153e6b1fd10a10c95554022dc5cda5c9819d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 46/69] fix: a portal refused for its parameters stayed
 registered as a known portal

---
 pythagoras/_030_data_portals/data_portals.py                  | 3 ++-
 .../_060_autonomous_functions/autonomous_core_classes.py      | 4 ++--
 pythagoras/_090_swarming_portals/swarming_portals.py          | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_030_data_portals/data_portals.py b/pythagoras/_030_data_portals/data_portals.py
index cf381a5..e682640 100644
--- a/pythagoras/_030_data_portals/data_portals.py
+++ b/pythagoras/_030_data_portals/data_portals.py
@@ -36,10 +36,11 @@ class DataPortal(LoggingPortal):
             , root_dict:PersiDict|str|None = None
             , p_consistency_checks: float | None = None
             ):
+        assert p_consistency_checks is None or 0 <= p_consistency_checks <= 1
+
         super().__init__(root_dict = root_dict)
         del root_dict
 
-        assert p_consistency_checks is None or 0 <= p_consistency_checks <= 1
         if p_consistency_checks is None:
             p_consistency_checks = 0
         self._p_consistency_checks = p_consistency_checks
diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 9766e36..81f5dff 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -42,10 +42,10 @@ class AutonomousCodePortal(SafeCodePortal):
             , p_consistency_checks: float | None = None
             , default_island_name: str = "Samos"
             ):
-        super().__init__(root_dict=root_dict
-            , p_consistency_checks=p_consistency_checks)
         assert isinstance(default_island_name, str)
         assert len(default_island_name) >= 1
+        super().__init__(root_dict=root_dict
+            , p_consistency_checks=p_consistency_checks)
         self.default_island_name = default_island_name
         self.known_functions = dict()
         self.known_functions[default_island_name] = dict()
diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index 971b315..07f637b 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -36,11 +36,11 @@ class SwarmingPortal(PureCodePortal):
                  , n_background_workers:int|None = 3
                  , runtime_id:str|None = None
                  ):
+        n_background_workers = int(n_background_workers)
+        assert n_background_workers >= 0
         super().__init__(root_dict=root_dict
                          , p_consistency_checks=p_consistency_checks
                          , default_island_name=default_island_name)
-        n_background_workers = int(n_background_workers)
-        assert n_background_workers >= 0
         self.n_background_workers = n_background_workers
 
         compute_nodes_prototype = self.root_dict.get_subdict("compute_nodes")
-- 
2.43.0


From b43a910ff738658f42e6e019ee3d08b4f921f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 47/69] fix: a request could stay in the queue although another
 process had just stored the result

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 2a11ee8..3ee43c2 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -664,6 +664,10 @@ class PureFnExecutionResultAddr(HashAddr):
             else:
                 if self not in portal.execution_requests:
                     portal.execution_requests[self] = True
+                    if self._ready_in_current_portal:
+                        # another process has stored the result (and has
+                        # dropped the request) in the meantime
+                        self.drop_execution_request()
 
 
     def drop_execution_request(self):
-- 
2.43.0


From b1d29fa6b033dbddb0694a4402c106308bf699b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 48/69] fix: one request that could not be loaded prevented all
 other requests from being executed

---
 .../_090_swarming_portals/swarming_portals.py       | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index 07f637b..c436685 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -226,9 +226,16 @@ def _process_random_execution_request(**portal_init_params):
                     new_address = PureFnExecutionResultAddr.from_strings(
                         prefix=addr[0], hash_signature=addr[1]
                         , assert_readiness=False) # How does it handle portals?
-                    if not new_address.needs_execution:
-                        continue
-                    if not new_address.can_be_executed:
+                    try:
+                        if not new_address.needs_execution:
+                            continue
+                        if not new_address.can_be_executed:
+                            continue
+                    except Exception:
+                        # The function can't be loaded by this process, e.g.
+                        # another version of it has been loaded already.
+                        # This should not prevent other requests
+                        # from being processed.
                         continue
                     candidate_addresses.append(new_address)
                     if len(candidate_addresses) > max_addresses_to_consider:
-- 
2.43.0


From fa7583298ece72787e89493e758c90b6316447e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 49/69] fix: requests of processes killed right after storing a
 result stayed in the queue for ever

---
 pythagoras/_090_swarming_portals/swarming_portals.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index c436685..e4961e5 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -227,6 +227,11 @@ def _process_random_execution_request(**portal_init_params):
                         prefix=addr[0], hash_signature=addr[1]
                         , assert_readiness=False) # How does it handle portals?
                     try:
+                        if new_address.ready:
+                            # e.g. a process was killed after it had stored
+                            # the result, but before it dropped the request
+                            new_address.drop_execution_request()
+                            continue
                         if not new_address.needs_execution:
                             continue
                         if not new_address.can_be_executed:
-- 
2.43.0


From 4a62576177a00d09b687aae8059e6c081561c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 50/69] fix: a request that could never be executed could block
 the newer version of its function for ever

---
 pythagoras/_090_swarming_portals/swarming_portals.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index e4961e5..587694f 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -219,10 +219,17 @@ def _process_random_execution_request(**portal_init_params):
         # TODO: are 200 and 5000 good values for max_addresses_to_consider?
         with OutputSuppressor():
             candidate_addresses = []
+            some_requests_cant_be_loaded = False
             while len(candidate_addresses) == 0:
                 if not portal.parent_runtime_is_live():
                     return
-                for addr in portal.execution_requests:
+                if some_requests_cant_be_loaded:
+                    # They may need a process that has not loaded
+                    # the functions this one has loaded already.
+                    return
+                all_requests = [r for r in portal.execution_requests]
+                portal.entropy_infuser.shuffle(all_requests)
+                for addr in all_requests:
                     new_address = PureFnExecutionResultAddr.from_strings(
                         prefix=addr[0], hash_signature=addr[1]
                         , assert_readiness=False) # How does it handle portals?
@@ -241,6 +248,7 @@ def _process_random_execution_request(**portal_init_params):
                         # another version of it has been loaded already.
                         # This should not prevent other requests
                         # from being processed.
+                        some_requests_cant_be_loaded = True
                         continue
                     candidate_addresses.append(new_address)
                     if len(candidate_addresses) > max_addresses_to_consider:
-- 
2.43.0


From cd0d9a17893b3404ad4e4c759c0ba38182ae5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 51/69] fix: don't turn assigned lambdas into functions while
 normalizing code

The normal form of "x = lambda: 3" was "def x(): return 3": the name of
the function changed, and normalizing the result again gave a different
text (and thus a different address of the function).
---
 .../code_normalizer_implementation.py                        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index bb870fb..9a41d3e 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -138,6 +138,9 @@ def __get_normalized_function_source__(
         # TODO: compare with the source for ast.candidate_docstring()
 
     result = ast.unparse(code_ast)
-    result = autopep8.fix_code(result)
+    # E731 turns "x = lambda: y" into a function definition, which changes
+    # the code, and will be formatted differently the next time.
+    result = autopep8.fix_code(result
+        , options=dict(ignore=["E226", "E24", "W50", "W690", "E731"]))
 
     return result
\ No newline at end of file
-- 
2.43.0


From 2fb4bfb10adac2e6caab3bc053bb50e449ff3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:52 +0000
Subject: [PATCH 52/69] fix: NaN is consistent with NaN

A consistency check failed for every value containing a NaN, although
exactly the same value was set again.
---
 pythagoras/_800_persidict_extensions/first_entry_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_800_persidict_extensions/first_entry_dict.py b/pythagoras/_800_persidict_extensions/first_entry_dict.py
index e2e9e67..98d9f69 100644
--- a/pythagoras/_800_persidict_extensions/first_entry_dict.py
+++ b/pythagoras/_800_persidict_extensions/first_entry_dict.py
@@ -56,7 +56,8 @@ class FirstEntryDict(PersiDict):
             and self._p_consistency_checks is not None
             and self._p_consistency_checks > 0):
             if random.random() < self._p_consistency_checks:
-                diff_dict = DeepDiff(self._wrapped_dict[key], value)
+                diff_dict = DeepDiff(self._wrapped_dict[key], value
+                    , ignore_nan_inequality=True)
                 # We are using DeepDiff here to compare the values
                 # because the values can be complex objects,
                 # e.g. Pandas DataFrames
-- 
2.43.0


From 7ca03568fb66c700ca5394951b4a45e7d847bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 53/69] fix: consistency checks see the content of DataFrames

DeepDiff treats a DataFrame as a sequence of column names, so a different
DataFrame with the same columns passed for the value already set.
---
 .../first_entry_dict.py                       | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_800_persidict_extensions/first_entry_dict.py b/pythagoras/_800_persidict_extensions/first_entry_dict.py
index 98d9f69..914ca59 100644
--- a/pythagoras/_800_persidict_extensions/first_entry_dict.py
+++ b/pythagoras/_800_persidict_extensions/first_entry_dict.py
@@ -1,12 +1,29 @@
 import time
 
+import pandas as pd
 from deepdiff import DeepDiff
+from deepdiff.operator import BaseOperator
 from persidict import PersiDict
 import random
 
 from persidict.persi_dict import PersiDictKey
 
 
+class _DataFrameOperator(BaseOperator):
+    """Compares DataFrames, of which DeepDiff only sees column names."""
+
+    def give_up_diffing(self, level, diff_instance):
+        if not isinstance(level.t1, pd.DataFrame) or not isinstance(
+                level.t2, pd.DataFrame):
+            return False
+        if not level.t1.equals(level.t2):
+            diff_instance.custom_report_result("dataframes_differ", level)
+        return True
+
+    def normalize_value_for_hashing(self, parent, obj):
+        return obj
+
+
 class FirstEntryDict(PersiDict):
     """ A dictionary that always keeps the first value assigned to a key.
     """
@@ -57,7 +74,9 @@ class FirstEntryDict(PersiDict):
             and self._p_consistency_checks > 0):
             if random.random() < self._p_consistency_checks:
                 diff_dict = DeepDiff(self._wrapped_dict[key], value
-                    , ignore_nan_inequality=True)
+                    , ignore_nan_inequality=True
+                    , custom_operators=[_DataFrameOperator(
+                        types=[pd.DataFrame])])
                 # We are using DeepDiff here to compare the values
                 # because the values can be complex objects,
                 # e.g. Pandas DataFrames
-- 
2.43.0


From 7970a029a98288d92e741802e281a82be9fb550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:43 +0000
Subject: [PATCH 54/69] fix: count a yield inside a lambda as the lambda's, not
 the enclosing function's

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 1180927..f157a38 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -90,7 +90,9 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         if visible is None:
             visible = accessible
         self.names.accessible = visible | {a.arg for a in args}
+        n_yelds = self.n_yelds # a yield in the body belongs to the lambda
         self.visit(node.body)
+        self.n_yelds = n_yelds
         self.names.accessible = accessible
 
     def visit_ClassDef(self, node):
-- 
2.43.0


From 9e66ee2a97c4caa3c087d91de0ee6e55201d68f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 55/69] fix: parameters of a lambda in a class body are visible
 in lambdas inside it

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index f157a38..77818c5 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -91,7 +91,10 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             visible = accessible
         self.names.accessible = visible | {a.arg for a in args}
         n_yelds = self.n_yelds # a yield in the body belongs to the lambda
+        # everything, visible in the body, is visible in lambdas inside it
+        visible_to_nested, self.visible_to_nested = self.visible_to_nested, None
         self.visit(node.body)
+        self.visible_to_nested = visible_to_nested
         self.n_yelds = n_yelds
         self.names.accessible = accessible
 
-- 
2.43.0


From db917147b5855d7f94ea327f9cacf79c48bb28a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:47 +0000
Subject: [PATCH 56/69] fix: variables of a comprehension in a class body are
 visible in lambdas inside it

---
 .../names_usage_analyzer.py                      | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 77818c5..bac6974 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -150,6 +150,14 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
                 if target.id not in self.names.accessible:
                     self.names.local |= {target.id}
         self.names.accessible |= self.names.local
+        if (isinstance(node, ast.comprehension)
+                and self.visible_to_nested is not None):
+            # unlike other names, bound in a class body, variables
+            # of a comprehension are visible in lambdas inside it
+            self.visible_to_nested = self.visible_to_nested | {
+                name.id for name in ast.walk(node.target)
+                if isinstance(name, ast.Name)
+                and isinstance(name.ctx, ast.Store)}
         self.generic_visit(node)
 
     def visit_For(self, node):
@@ -160,30 +168,38 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
     def visit_ListComp(self, node):
         # the first iterable is evaluated in the enclosing scope
         self.visit(node.generators[0].iter)
+        visible_to_nested = self.visible_to_nested
         for gen in node.generators:
             self.visit_comprehension(gen)
         self.generic_visit(node)
+        self.visible_to_nested = visible_to_nested
 
     def visit_SetComp(self, node):
         # the first iterable is evaluated in the enclosing scope
         self.visit(node.generators[0].iter)
+        visible_to_nested = self.visible_to_nested
         for gen in node.generators:
             self.visit_comprehension(gen)
         self.generic_visit(node)
+        self.visible_to_nested = visible_to_nested
 
     def visit_DictComp(self, node):
         # the first iterable is evaluated in the enclosing scope
         self.visit(node.generators[0].iter)
+        visible_to_nested = self.visible_to_nested
         for gen in node.generators:
             self.visit_comprehension(gen)
         self.generic_visit(node)
+        self.visible_to_nested = visible_to_nested
 
     def visit_GeneratorExp(self, node):
         # the first iterable is evaluated in the enclosing scope
         self.visit(node.generators[0].iter)
+        visible_to_nested = self.visible_to_nested
         for gen in node.generators:
             self.visit_comprehension(gen)
         self.generic_visit(node)
+        self.visible_to_nested = visible_to_nested
 
     def visit_Import(self, node):
         for alias in node.names:
-- 
2.43.0


From 0f5f572288af08a0715f527cc052bb2c2c15d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 57/69] fix: names bound in the bases of a class belong to the
 scope around the class

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index bac6974..ede1ef9 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -101,6 +101,9 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
     def visit_ClassDef(self, node):
         self.names.local |= {node.name}
         self.names.accessible |= {node.name}
+        # decorators and base classes belong to the enclosing scope
+        for expr in node.decorator_list + node.bases + node.keywords:
+            self.visit(expr)
         # names, bound in a class body, are not visible outside the body,
         # and are not visible in functions, defined in the body
         local, accessible = set(self.names.local), set(self.names.accessible)
-- 
2.43.0


From 58d3331ecc15478d0d5c21595959563e3617d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 58/69] fix: exceptions and functions with non-ASCII names can
 be logged

---
 pythagoras/_020_logging_portals/logging_portals.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index cf49168..60db20c 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -6,7 +6,7 @@ import random
 from typing import Optional
 
 import pandas as pd
-from persidict import PersiDict, FileDirDict
+from persidict import PersiDict, FileDirDict, replace_unsafe_chars
 
 from pythagoras._010_basic_portals.foundation import BasicPortal, _persistent
 from pythagoras._820_strings_signatures_converters.current_date_gmt_str import (
@@ -250,7 +250,8 @@ class LoggingPortal(BasicPortal):
             exception_id += "_"+get_random_signature()
 
         for prefix in exception_prefixes:
-            full_path = prefix + [exception_id]
+            full_path = [replace_unsafe_chars(name, replace_with="_")
+                for name in prefix + [exception_id]]
             for portal in LoggingPortal.get_entered_portals():
                 portal.crash_history[full_path] = exception_data_to_persist
 
@@ -301,7 +302,8 @@ class LoggingPortal(BasicPortal):
 
     @staticmethod
     def _exception_id(exc_value) -> str:
-        return NeedsRandomization(exc_value.__class__.__name__)
+        return NeedsRandomization(replace_unsafe_chars(
+            exc_value.__class__.__name__, replace_with="_"))
 
     @staticmethod
     def _extra_exception_data() -> dict:
-- 
2.43.0


From 31b7f7707b0f6ab6e83f13c1127a8e970ebd2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 59/69] fix: an exception with data that can't be saved is
 logged, not replaced

---
 .../_020_logging_portals/logging_portals.py   | 38 +++++++++++++++++--
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 60db20c..39a9323 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -5,6 +5,7 @@ import traceback
 import random
 from typing import Optional
 
+import jsonpickle
 import pandas as pd
 from persidict import PersiDict, FileDirDict, replace_unsafe_chars
 
@@ -220,6 +221,22 @@ class LoggingPortal(BasicPortal):
         return kwargs
 
 
+    @staticmethod
+    def _make_storable(value, is_container:bool=False):
+        """Replace values that can't be saved with their descriptions."""
+        try:
+            jsonpickle.dumps(value)
+            return value
+        except Exception:
+            pass
+        if is_container and isinstance(value, dict):
+            return {k:LoggingPortal._make_storable(value[k]) for k in value}
+        try:
+            return repr(value)
+        except Exception:
+            return object.__repr__(value)
+
+
     @staticmethod
     def _persist_exception_information(
             exc_type, exc_value, trace_back
@@ -249,11 +266,24 @@ class LoggingPortal(BasicPortal):
         if isinstance(exception_id, NeedsRandomization):
             exception_id += "_"+get_random_signature()
 
-        for prefix in exception_prefixes:
-            full_path = [replace_unsafe_chars(name, replace_with="_")
+        all_paths = [[replace_unsafe_chars(name, replace_with="_")
                 for name in prefix + [exception_id]]
-            for portal in LoggingPortal.get_entered_portals():
-                portal.crash_history[full_path] = exception_data_to_persist
+            for prefix in exception_prefixes]
+        try:
+            for full_path in all_paths:
+                for portal in LoggingPortal.get_entered_portals():
+                    portal.crash_history[full_path] = exception_data_to_persist
+        except Exception:
+            # Values that can't be saved (e.g. some arguments of a function)
+            # must not replace the exception with another one.
+            exception_data_to_persist = {
+                k:LoggingPortal._make_storable(v, is_container=True)
+                for k,v in exception_data_to_persist.items()}
+            for full_path in all_paths:
+                for portal in LoggingPortal.get_entered_portals():
+                    if not full_path in portal.crash_history:
+                        portal.crash_history[full_path] = (
+                            exception_data_to_persist)
 
         LoggingPortal._mark_exception_as_processed(
             exc_type, exc_value, trace_back)
-- 
2.43.0


From 963ff89a242d46c7d0c5ee54a36b803061cbecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 60/69] fix: comprehensions, defaults and classes in class
 bodies see the names Python lets them see

Variables of a comprehension are also no longer taken for local names
of the function around it.
---
 .../names_usage_analyzer.py                   | 114 +++++++++---------
 1 file changed, 57 insertions(+), 57 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index ede1ef9..c68032a 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -37,6 +37,7 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.func_nesting_level = 0
         self.n_yelds = 0
         self.visible_to_nested = None # None means all accessible names
+        self.comprehension_variables = set()
 
     def visit_FunctionDef(self, node):
         # decorators and default values belong to the enclosing scope
@@ -45,23 +46,10 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             if expr is not None:
                 self.visit(expr)
         if self.func_nesting_level == 0:
-            self.names.function = node.name
-            self.func_nesting_level += 1
-            for arg in (node.args.posonlyargs + node.args.args
-                        + node.args.kwonlyargs):
-                self.names.local |= {arg.arg}
-            if node.args.vararg:
-                self.names.local |= {node.args.vararg.arg}
-            if node.args.kwarg:
-                self.names.local |= {node.args.kwarg.arg}
-            self.names.accessible |= self.names.local
-            # nested functions can call each other and themselves
-            self.names.accessible |= set(_definitions_within_scope(node))
-            self.generic_visit(node)
-            self.func_nesting_level -= 1
+            self._visit_function_body(node)
         else:
             nested = NamesUsageAnalyzer()
-            nested.visit(node)
+            nested._visit_function_body(node)
             visible = self.visible_to_nested
             if visible is None:
                 visible = self.names.accessible
@@ -79,6 +67,26 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
 
     visit_AsyncFunctionDef = visit_FunctionDef
 
+    def _visit_function_body(self, node):
+        self.names.function = node.name
+        self.func_nesting_level += 1
+        for arg in (node.args.posonlyargs + node.args.args
+                    + node.args.kwonlyargs):
+            self.names.local |= {arg.arg}
+        if node.args.vararg:
+            self.names.local |= {node.args.vararg.arg}
+        if node.args.kwarg:
+            self.names.local |= {node.args.kwarg.arg}
+        self.names.accessible |= self.names.local
+        # nested functions can call each other and themselves
+        self.names.accessible |= set(_definitions_within_scope(node))
+        for statement in node.body:
+            self.visit(statement)
+        self.names.local |= (self.comprehension_variables
+                             - self.names.accessible)
+        self.names.accessible |= self.comprehension_variables
+        self.func_nesting_level -= 1
+
     def visit_Lambda(self, node):
         for default in node.args.defaults + node.args.kw_defaults:
             if default is not None:
@@ -106,10 +114,14 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             self.visit(expr)
         # names, bound in a class body, are not visible outside the body,
         # and are not visible in functions, defined in the body
+        # including the bodies of nested classes
         local, accessible = set(self.names.local), set(self.names.accessible)
         visible_to_nested = self.visible_to_nested
-        self.visible_to_nested = accessible
-        self.generic_visit(node)
+        if visible_to_nested is None:
+            self.visible_to_nested = accessible
+        self.names.accessible = set(self.visible_to_nested)
+        for statement in node.body:
+            self.visit(statement)
         self.visible_to_nested = visible_to_nested
         self.names.local, self.names.accessible = local, accessible
 
@@ -143,7 +155,7 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
 
     visit_TryStar = visit_Try
 
-    def visit_comprehension(self, node):
+    def visit_For(self, node):
         if isinstance(node.target, (ast.Tuple, ast.List)):
             all_targets =node.target.elts
         else:
@@ -153,56 +165,44 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
                 if target.id not in self.names.accessible:
                     self.names.local |= {target.id}
         self.names.accessible |= self.names.local
-        if (isinstance(node, ast.comprehension)
-                and self.visible_to_nested is not None):
-            # unlike other names, bound in a class body, variables
-            # of a comprehension are visible in lambdas inside it
-            self.visible_to_nested = self.visible_to_nested | {
-                name.id for name in ast.walk(node.target)
-                if isinstance(name, ast.Name)
-                and isinstance(name.ctx, ast.Store)}
         self.generic_visit(node)
 
-    def visit_For(self, node):
-        self.visit_comprehension(node)
-
     visit_AsyncFor = visit_For
 
-    def visit_ListComp(self, node):
+    def _visit_comprehension_expression(self, node, *elements):
         # the first iterable is evaluated in the enclosing scope
         self.visit(node.generators[0].iter)
+        # everything else is evaluated in a scope of its own
+        targets = {name.id for gen in node.generators
+            for name in ast.walk(gen.target)
+            if isinstance(name, ast.Name) and isinstance(name.ctx, ast.Store)}
+        accessible = self.names.accessible
         visible_to_nested = self.visible_to_nested
-        for gen in node.generators:
-            self.visit_comprehension(gen)
-        self.generic_visit(node)
+        visible = accessible
+        if visible_to_nested is not None:
+            visible = visible_to_nested
+        self.names.accessible = visible | targets
+        self.visible_to_nested = None
+        for i, gen in enumerate(node.generators):
+            self.visit(gen.target)
+            for expr in ([gen.iter] if i else []) + gen.ifs:
+                self.visit(expr)
+        for expr in elements:
+            self.visit(expr)
         self.visible_to_nested = visible_to_nested
+        self.comprehension_variables |= targets
+        self.names.accessible = accessible | (
+            self.names.accessible - targets)
 
-    def visit_SetComp(self, node):
-        # the first iterable is evaluated in the enclosing scope
-        self.visit(node.generators[0].iter)
-        visible_to_nested = self.visible_to_nested
-        for gen in node.generators:
-            self.visit_comprehension(gen)
-        self.generic_visit(node)
-        self.visible_to_nested = visible_to_nested
+    def visit_ListComp(self, node):
+        self._visit_comprehension_expression(node, node.elt)
 
-    def visit_DictComp(self, node):
-        # the first iterable is evaluated in the enclosing scope
-        self.visit(node.generators[0].iter)
-        visible_to_nested = self.visible_to_nested
-        for gen in node.generators:
-            self.visit_comprehension(gen)
-        self.generic_visit(node)
-        self.visible_to_nested = visible_to_nested
+    visit_SetComp = visit_ListComp
 
-    def visit_GeneratorExp(self, node):
-        # the first iterable is evaluated in the enclosing scope
-        self.visit(node.generators[0].iter)
-        visible_to_nested = self.visible_to_nested
-        for gen in node.generators:
-            self.visit_comprehension(gen)
-        self.generic_visit(node)
-        self.visible_to_nested = visible_to_nested
+    visit_GeneratorExp = visit_ListComp
+
+    def visit_DictComp(self, node):
+        self._visit_comprehension_expression(node, node.key, node.value)
 
     def visit_Import(self, node):
         for alias in node.names:
-- 
2.43.0


From b661ce4d69255593a85f6ccf1b5b03b8f7328a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 61/69] fix: objects that fail when asked for their names have
 information names too

---
 pythagoras/_040_ordinary_functions/long_infoname.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/long_infoname.py b/pythagoras/_040_ordinary_functions/long_infoname.py
index b546e93..fa0a02b 100644
--- a/pythagoras/_040_ordinary_functions/long_infoname.py
+++ b/pythagoras/_040_ordinary_functions/long_infoname.py
@@ -13,10 +13,13 @@ def get_long_infoname(x:Any, drop_unsafe_chars:bool = True) -> str:
     else:
         name += "." + str(type(x).__name__)
 
-    if hasattr(x, "__qualname__"):
-        name += "_" + str(x.__qualname__)
-    elif hasattr(x, "__name__"):
-        name += "_" + str(x.__name__)
+    try:
+        if hasattr(x, "__qualname__"):
+            name += "_" + str(x.__qualname__)
+        elif hasattr(x, "__name__"):
+            name += "_" + str(x.__name__)
+    except Exception:
+        pass # objects that can't tell their own names are described by types
 
     if drop_unsafe_chars:
         name = replace_unsafe_chars(name, replace_with="_")
-- 
2.43.0


From 431aa27466f8326f9d595f5cc2fbb8b9800fb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:00 +0000
Subject: [PATCH 62/69] fix: lambdas are not ordinary functions under other
 names either

---
 pythagoras/_040_ordinary_functions/assert_ordinarity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_040_ordinary_functions/assert_ordinarity.py b/pythagoras/_040_ordinary_functions/assert_ordinarity.py
index 0464960..ec60325 100644
--- a/pythagoras/_040_ordinary_functions/assert_ordinarity.py
+++ b/pythagoras/_040_ordinary_functions/assert_ordinarity.py
@@ -42,7 +42,8 @@ def assert_ordinarity(a_func:Callable) -> None:
         " only regular functions are allowed."
         )
 
-    assert a_func.__name__ != "<lambda>", (
+    # a lambda can be given another name, but its code can't
+    assert "<lambda>" not in (a_func.__name__, a_func.__code__.co_name), (
         f"The function {name} can't be lambda,"
         " only regular functions are allowed."
         )
-- 
2.43.0


From da572baff4803854a05e4367599bf3056a37e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:27 +0000
Subject: [PATCH 63/69] fix: a consistency check tells [1] from [1.0] and
 [True] in lists

---
 pythagoras/_800_persidict_extensions/first_entry_dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_800_persidict_extensions/first_entry_dict.py b/pythagoras/_800_persidict_extensions/first_entry_dict.py
index 914ca59..828dbbb 100644
--- a/pythagoras/_800_persidict_extensions/first_entry_dict.py
+++ b/pythagoras/_800_persidict_extensions/first_entry_dict.py
@@ -75,6 +75,7 @@ class FirstEntryDict(PersiDict):
             if random.random() < self._p_consistency_checks:
                 diff_dict = DeepDiff(self._wrapped_dict[key], value
                     , ignore_nan_inequality=True
+                    , zip_ordered_iterables=True # else [1] equals [1.0]
                     , custom_operators=[_DataFrameOperator(
                         types=[pd.DataFrame])])
                 # We are using DeepDiff here to compare the values
-- 
2.43.0


From 34ee17818610cbdc84154239add0779aef6324d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:27 +0000
Subject: [PATCH 64/69] fix: a consistency check tells datetimes with a zone
 from those without

---
 .../first_entry_dict.py                       | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_800_persidict_extensions/first_entry_dict.py b/pythagoras/_800_persidict_extensions/first_entry_dict.py
index 828dbbb..7e3a48c 100644
--- a/pythagoras/_800_persidict_extensions/first_entry_dict.py
+++ b/pythagoras/_800_persidict_extensions/first_entry_dict.py
@@ -1,4 +1,5 @@
 import time
+from datetime import datetime
 
 import pandas as pd
 from deepdiff import DeepDiff
@@ -24,6 +25,22 @@ class _DataFrameOperator(BaseOperator):
         return obj
 
 
+class _DatetimeOperator(BaseOperator):
+    """Tells datetimes without a zone from UTC ones, unlike DeepDiff."""
+
+    def give_up_diffing(self, level, diff_instance):
+        if not isinstance(level.t1, datetime) or not isinstance(
+                level.t2, datetime):
+            return False
+        if (level.t1.tzinfo is None) == (level.t2.tzinfo is None):
+            return False
+        diff_instance.custom_report_result("datetimes_differ", level)
+        return True
+
+    def normalize_value_for_hashing(self, parent, obj):
+        return obj
+
+
 class FirstEntryDict(PersiDict):
     """ A dictionary that always keeps the first value assigned to a key.
     """
@@ -77,7 +94,8 @@ class FirstEntryDict(PersiDict):
                     , ignore_nan_inequality=True
                     , zip_ordered_iterables=True # else [1] equals [1.0]
                     , custom_operators=[_DataFrameOperator(
-                        types=[pd.DataFrame])])
+                        types=[pd.DataFrame])
+                        , _DatetimeOperator(types=[datetime])])
                 # We are using DeepDiff here to compare the values
                 # because the values can be complex objects,
                 # e.g. Pandas DataFrames
-- 
2.43.0


From cbf3739ba4c79f495667b31636620a50d9f44656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:25 +0000
Subject: [PATCH 65/69] fix: a consistency check sees dictionary keys that
 begin with two underscores

---
 pythagoras/_800_persidict_extensions/first_entry_dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_800_persidict_extensions/first_entry_dict.py b/pythagoras/_800_persidict_extensions/first_entry_dict.py
index 7e3a48c..bb33447 100644
--- a/pythagoras/_800_persidict_extensions/first_entry_dict.py
+++ b/pythagoras/_800_persidict_extensions/first_entry_dict.py
@@ -93,6 +93,7 @@ class FirstEntryDict(PersiDict):
                 diff_dict = DeepDiff(self._wrapped_dict[key], value
                     , ignore_nan_inequality=True
                     , zip_ordered_iterables=True # else [1] equals [1.0]
+                    , ignore_private_variables=False # sees "__a" keys
                     , custom_operators=[_DataFrameOperator(
                         types=[pd.DataFrame])
                         , _DatetimeOperator(types=[datetime])])
-- 
2.43.0


From 848bae3758d43d5d17ea1db3069928ff3948dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:25 +0000
Subject: [PATCH 66/69] fix: a consistency check can compare arrays of strings
 and objects

---
 .../first_entry_dict.py                       | 49 +++++++++++++++----
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/pythagoras/_800_persidict_extensions/first_entry_dict.py b/pythagoras/_800_persidict_extensions/first_entry_dict.py
index bb33447..5191a6f 100644
--- a/pythagoras/_800_persidict_extensions/first_entry_dict.py
+++ b/pythagoras/_800_persidict_extensions/first_entry_dict.py
@@ -1,6 +1,7 @@
 import time
 from datetime import datetime
 
+import numpy as np
 import pandas as pd
 from deepdiff import DeepDiff
 from deepdiff.operator import BaseOperator
@@ -41,6 +42,42 @@ class _DatetimeOperator(BaseOperator):
         return obj
 
 
+class _ArrayOperator(BaseOperator):
+    """Compares arrays of strings, objects and records as lists.
+
+    DeepDiff looks for NaN-s in them, which NumPy refuses to do.
+    """
+
+    def give_up_diffing(self, level, diff_instance):
+        t1, t2 = level.t1, level.t2
+        if not isinstance(t1, np.ndarray) or not isinstance(t2, np.ndarray):
+            return False
+        if t1.dtype.kind in "biufcmM" and t2.dtype.kind in "biufcmM":
+            return False
+        if (type(t1) is not type(t2) or t1.dtype != t2.dtype
+            or t1.shape != t2.shape
+            or _find_differences(t1.tolist(), t2.tolist())):
+            diff_instance.custom_report_result("arrays_differ", level)
+        return True
+
+    def normalize_value_for_hashing(self, parent, obj):
+        return obj
+
+
+def _find_differences(x, y):
+    # We are using DeepDiff here to compare the values
+    # because the values can be complex objects,
+    # e.g. Pandas DataFrames
+    return DeepDiff(x, y
+        , ignore_nan_inequality=True
+        , zip_ordered_iterables=True # else [1] equals [1.0]
+        , ignore_private_variables=False # sees "__a" keys
+        , custom_operators=[
+            _DataFrameOperator(types=[pd.DataFrame])
+            , _DatetimeOperator(types=[datetime])
+            , _ArrayOperator(types=[np.ndarray])])
+
+
 class FirstEntryDict(PersiDict):
     """ A dictionary that always keeps the first value assigned to a key.
     """
@@ -90,16 +127,8 @@ class FirstEntryDict(PersiDict):
             and self._p_consistency_checks is not None
             and self._p_consistency_checks > 0):
             if random.random() < self._p_consistency_checks:
-                diff_dict = DeepDiff(self._wrapped_dict[key], value
-                    , ignore_nan_inequality=True
-                    , zip_ordered_iterables=True # else [1] equals [1.0]
-                    , ignore_private_variables=False # sees "__a" keys
-                    , custom_operators=[_DataFrameOperator(
-                        types=[pd.DataFrame])
-                        , _DatetimeOperator(types=[datetime])])
-                # We are using DeepDiff here to compare the values
-                # because the values can be complex objects,
-                # e.g. Pandas DataFrames
+                diff_dict = _find_differences(
+                    self._wrapped_dict[key], value)
                 self._total_checks_count += 1
                 assert len(diff_dict) == 0, (
                     f"FirstEntryDict: key {key} is already set "
-- 
2.43.0


From 9ad89c49d6c9a501867adbb099922ec143f54f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:19 +0000
Subject: [PATCH 67/69] fix: log an event once when several active portals
 share one directory

---
 pythagoras/_020_logging_portals/logging_portals.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 39a9323..5f1646e 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -376,5 +376,10 @@ class LoggingPortal(BasicPortal):
         event_to_log = LoggingPortal.add_execution_environment_summary(
             *args, **kwargs)
 
+        updated_logs = []
         for portal in LoggingPortal.get_entered_portals():
-            portal.event_log[full_path] = event_to_log
\ No newline at end of file
+            # several portals may share the same event log
+            log_params = portal.event_log.get_params()
+            if log_params not in updated_logs:
+                portal.event_log[full_path] = event_to_log
+                updated_logs.append(log_params)
\ No newline at end of file
-- 
2.43.0


From f77bceb11f8ab71e8bec426ef70be0a24ba5550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:31 +0000
Subject: [PATCH 68/69] fix: names captured by patterns of match statements
 belong to the function

---
 .../names_usage_analyzer.py                       | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index c68032a..10172b0 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -30,7 +30,6 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
     This class is a visitor of an AST (Abstract Syntax Tree) that collects data
     needed to analyze function autonomy.
     """
-    # TODO: add support for structural pattern matching
     def __init__(self):
         self.names = NamesUsedInFunction()
         self.imported_packages_deep = set()
@@ -169,6 +168,20 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
 
     visit_AsyncFor = visit_For
 
+    def _visit_capturing_pattern(self, node):
+        # captured names are bound in the order of their appearance
+        self.generic_visit(node)
+        name = node.rest if isinstance(node, ast.MatchMapping) else node.name
+        if name is not None and name not in self.names.accessible:
+            self.names.local |= {name}
+            self.names.accessible |= {name}
+
+    visit_MatchAs = _visit_capturing_pattern
+
+    visit_MatchStar = _visit_capturing_pattern
+
+    visit_MatchMapping = _visit_capturing_pattern
+
     def _visit_comprehension_expression(self, node, *elements):
         # the first iterable is evaluated in the enclosing scope
         self.visit(node.generators[0].iter)
-- 
2.43.0


From af1a15be0cb6027d2c19e7b067e11d3f372feb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:06 +0000
Subject: [PATCH 69/69] fix: type parameters belong to the functions, classes
 and aliases that declare them

---
 .../names_usage_analyzer.py                   | 58 ++++++++++++++++++-
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 10172b0..d8bbfa6 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -69,6 +69,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
     def _visit_function_body(self, node):
         self.names.function = node.name
         self.func_nesting_level += 1
+        self._visit_type_parameters(node)
+        self._visit_type_parameters(node)
         for arg in (node.args.posonlyargs + node.args.args
                     + node.args.kwonlyargs):
             self.names.local |= {arg.arg}
@@ -86,6 +88,48 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.names.accessible |= self.comprehension_variables
         self.func_nesting_level -= 1
 
+    def _visit_type_parameters(self, node):
+        names = {param.name for param in node.type_params}
+        self.names.local |= names
+        self.names.accessible |= names
+        for param in node.type_params:
+            self.visit(param)
+
+    def visit_TypeAlias(self, node):
+        self.visit(node.name)
+        # parameters and values of aliases are evaluated like lambdas
+        local, accessible = set(self.names.local), self.names.accessible
+        visible = self.visible_to_nested
+        if visible is None:
+            visible = accessible
+        self.names.accessible = set(visible)
+        self._visit_type_parameters(node)
+        self.visit(node.value)
+        self.names.local, self.names.accessible = local, accessible
+
+    def _visit_type_parameters(self, node):
+        params = getattr(node, "type_params", []) # since Python 3.12
+        names = {param.name for param in params}
+        self.names.local |= names
+        self.names.accessible |= names
+        for param in params:
+            self.visit(param)
+        return names
+
+    def visit_TypeAlias(self, node):
+        self.visit(node.name)
+        # parameters belong to the alias, which is evaluated like a lambda
+        local, accessible = self.names.local, self.names.accessible
+        visible = self.visible_to_nested
+        if visible is None:
+            visible = accessible
+        self.names.local, self.names.accessible = set(local), set(visible)
+        visible_to_nested, self.visible_to_nested = self.visible_to_nested, None
+        self._visit_type_parameters(node)
+        self.visit(node.value)
+        self.visible_to_nested = visible_to_nested
+        self.names.local, self.names.accessible = local, accessible
+
     def visit_Lambda(self, node):
         for default in node.args.defaults + node.args.kw_defaults:
             if default is not None:
@@ -109,15 +153,23 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.names.local |= {node.name}
         self.names.accessible |= {node.name}
         # decorators and base classes belong to the enclosing scope
-        for expr in node.decorator_list + node.bases + node.keywords:
+        for expr in node.decorator_list:
             self.visit(expr)
+        visible_to_nested = self.visible_to_nested
+        outer_names = set(self.names.local), set(self.names.accessible)
+        params = self._visit_type_parameters(node)
+        if visible_to_nested is not None:
+            self.visible_to_nested = visible_to_nested | params
+        for expr in node.bases + node.keywords:
+            self.visit(expr)
+        if params: # visible in base classes and in the body only
+            self.names.local, self.names.accessible = outer_names
         # names, bound in a class body, are not visible outside the body,
         # and are not visible in functions, defined in the body
         # including the bodies of nested classes
         local, accessible = set(self.names.local), set(self.names.accessible)
-        visible_to_nested = self.visible_to_nested
         if visible_to_nested is None:
-            self.visible_to_nested = accessible
+            self.visible_to_nested = accessible | params
         self.names.accessible = set(self.visible_to_nested)
         for statement in node.body:
             self.visit(statement)
-- 
2.43.0

