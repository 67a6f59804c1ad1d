From 05016433b0acbdbd5cb55c514f9f6c5e5d829778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 01/74] fix: merge chains of overlapping ranges in Intervals
 completely

After merging range i+1 into range i, the enlarged range was not compared with its
new neighbour, so elements were counted twice and equal sets compared unequal.
---
 kerncraft/intervals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index a2f77ee..e83092c 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -28,8 +28,10 @@ class Intervals(object):
                     self.data[i][1] = self.data[i+1][1]
 
                 # removed contained range
+                # (the enlarged range may also reach the next one, so stay here)
                 del self.data[i+1]
-            i += 1
+            else:
+                i += 1
 
     def __and__(self, other):
         """Combine two intervals, under the assumption that they are sane."""
-- 
2.43.0


From bd43a8f0121e790c6a3b100575d144dd18d2e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 02/74] fix: do not modify the ranges passed to Intervals

Ranges were enlarged in place, which changed the caller's lists and the operands of &.
---
 kerncraft/intervals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index e83092c..721c3b6 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -7,7 +7,8 @@ class Intervals(object):
 
     def __init__(self, *args, **kwargs):
         """If keywords *sane* is True (default: False), checks will not be done on given data."""
-        self.data = list(args)
+        # copy ranges, they may be enlarged later on and belong to the caller (or another object)
+        self.data = [list(d) for d in args]
         if not kwargs.get('sane', False):
             self.data = [d for d in self.data if d[1] > d[0]]
             self._enforce_order()
-- 
2.43.0


From c6f29c11d5d602bbfd6129260aa276d499d68e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 03/74] fix: use the SI values for the prefixes T, P and E

---
 kerncraft/prefixedunit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index 8268a30..ac5f7e9 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -5,7 +5,7 @@ import ruamel.yaml
 
 
 class PrefixedUnit(ruamel.yaml.YAMLObject):
-    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e13, 'P': 1e16, 'E': 1e19, 'Z': 1e21, 'Y': 1e24,
+    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'P': 1e15, 'E': 1e18, 'Z': 1e21, 'Y': 1e24,
                 '': 1}
 
 
-- 
2.43.0


From 3158fc6c2190a87fb0333639ac7502044a064ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 04/74] fix: keep units starting with a prefix letter and empty
 units in arithmetic

Results were built from a bare unit string, which was parsed for a prefix again: kg became
thousands of g and dimensionless quantities could not be computed with at all.
---
 kerncraft/prefixedunit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index ac5f7e9..e778c63 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -114,7 +114,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)*float(other), unit)
+        v = self.__class__(float(self)*float(other), '', unit)
         return v.reduced()
 
     def __truediv__(self, other):
@@ -123,7 +123,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)/float(other), unit)
+        v = self.__class__(float(self)/float(other), '', unit)
         return v.reduced()
 
     __div__ = __truediv__
@@ -134,7 +134,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)//float(other), unit)
+        v = self.__class__(float(self)//float(other), '', unit)
         return v.reduced()
 
     def __sub__(self, other):
@@ -146,11 +146,11 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for subtraction.")
 
-        v = self.__class__(float(self)-float(other), unit)
+        v = self.__class__(float(self)-float(other), '', unit)
         return v.reduced()
 
     def __abs__(self):
-        v = self.__class__(abs(float(self)), self.unit)
+        v = self.__class__(abs(float(self)), '', self.unit)
         return v.reduced()
 
     def __add__(self, other):
@@ -162,7 +162,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for addition.")
 
-        v = self.__class__(float(self) + float(other), self.unit)
+        v = self.__class__(float(self) + float(other), '', self.unit)
         return v.reduced()
 
     def __mod__(self, other):
@@ -174,7 +174,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for modulo.")
 
-        v = self.__class__(float(self) % float(other), self.unit)
+        v = self.__class__(float(self) % float(other), '', self.unit)
         return v.reduced()
 
     def __lt__(self, other):
-- 
2.43.0


From dfa439a63f91704054f8455101ad370bf05a9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 05/74] fix: read back every printed form of a quantity

Quantities with the prefixes E, Z and Y, negative and dimensionless ones were printed in a
form that could not be parsed, or was parsed with the prefix as part of the unit.
---
 kerncraft/prefixedunit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index e778c63..a8c4dee 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -12,7 +12,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
     yaml = ruamel.yaml.YAML()
     yaml_tag = u'!prefixed'
     yaml_implicit_pattern = re.compile(re.compile(
-        r'^(?P<value>[0-9]+(?:\.[0-9]+)?) (?P<prefix>[kMGTP])?(?P<unit>.*)$'))
+        r'^(?P<value>[0-9]+(?:\.[0-9]+)?) (?P<prefix>[kMGTPEZY])?(?P<unit>.*)$'))
 
     @classmethod
     def from_yaml(cls, loader, node):
@@ -26,16 +26,17 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if len(args) == 1:
             if isinstance(args[0], str):
                 m = re.match(
-                    r'^(?P<value>(?:[0-9]+(?:\.[0-9]+)?|inf)) (?P<prefix>[kMGTP])?(?P<unit>.*)$',
+                    r'^(?P<value>-?(?:[0-9]+(?:\.[0-9]+)?|inf))'
+                    r'(?: (?P<prefix>[kMGTPEZY])?(?P<unit>.*))?$',
                     args[0])
                 assert m, "Could not parse unit parameter "+repr(args[0])
                 g = m.groups()
-                args = [float(g[0]), g[1], g[2]]
+                args = [float(g[0]), g[1], g[2] or '']
             else:
                 args = [float(args[0]), '', '']
 
         if len(args) == 2:
-            m = re.match(r'^(?P<prefix>[kMGTP])?(?P<unit>.+)$', args[1])
+            m = re.match(r'^(?P<prefix>[kMGTPEZY])?(?P<unit>.+)$', args[1])
             assert m, "Could not parse unit parameter"+repr(args)
             gd = m.groupdict()
             args = [float(args[0]), gd['prefix'], gd['unit']]
-- 
2.43.0


From edea3ba38dba580341af6bce600cf73279dbb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 06/74] fix: strip exactly the comments in clean_code

A // comment at the end of the code was stripped only partially, /*/ was taken for a
complete comment, the second of two adjacent comments was kept and removing a comment
between two identifiers joined them.
---
 kerncraft/pycparser_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kerncraft/pycparser_utils.py b/kerncraft/pycparser_utils.py
index bd988a5..375e0df 100644
--- a/kerncraft/pycparser_utils.py
+++ b/kerncraft/pycparser_utils.py
@@ -39,13 +39,18 @@ def clean_code(code, comments=True, macros=False, pragmas=False):
         while idx < len(code) - 1:
             if comment_start is None and code[idx:idx + 2] == '//':
                 end_idx = code.find('\n', idx)
+                if end_idx == -1:
+                    end_idx = len(code)
                 code = code[:idx] + code[end_idx:]
-                idx -= end_idx - idx
+                idx -= 1
             elif comment_start is None and code[idx:idx + 2] == '/*':
                 comment_start = idx
+                # the * of the opening can not be part of the closing
+                idx += 1
             elif comment_start is not None and code[idx:idx + 2] == '*/':
                 code = (code[:comment_start] +
-                        '\n' * code[comment_start:idx].count('\n') +
+                        # a comment separates tokens like white space does
+                        ('\n' * code[comment_start:idx].count('\n') or ' ') +
                         code[idx + 2:])
                 idx -= idx - comment_start
                 comment_start = None
-- 
2.43.0


From e3027a1fdc2e89930dc9a8864f957438fe579958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 07/74] fix: strip comments before looking for macros and
 pragmas

Directives in comments were stripped as such, comments starting on a macro line lost only
their first line and '# pragma' was taken for a macro.
---
 kerncraft/pycparser_utils.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/kerncraft/pycparser_utils.py b/kerncraft/pycparser_utils.py
index 375e0df..1cc6b97 100644
--- a/kerncraft/pycparser_utils.py
+++ b/kerncraft/pycparser_utils.py
@@ -2,6 +2,7 @@
 """Collection of functions that extend pycparser's functionality."""
 
 import collections
+import re
 
 from pycparser import c_ast
 
@@ -18,21 +19,6 @@ def clean_code(code, comments=True, macros=False, pragmas=False):
     and multiline comments and macros are supported. BUT comment-like
     strings are (wrongfully) treated as comments.
     """
-    if macros or pragmas:
-        lines = code.split('\n')
-        in_macro = False
-        in_pragma = False
-        for i in range(len(lines)):
-            l = lines[i].strip()
-
-            if macros and (l.startswith('#') and not l.startswith('#pragma') or in_macro):
-                lines[i] = ''
-                in_macro = l.endswith('\\')
-            if pragmas and (l.startswith('#pragma') or in_pragma):
-                lines[i] = ''
-                in_pragma = l.endswith('\\')
-        code = '\n'.join(lines)
-
     if comments:
         idx = 0
         comment_start = None
@@ -56,6 +42,22 @@ def clean_code(code, comments=True, macros=False, pragmas=False):
                 comment_start = None
             idx += 1
 
+    if macros or pragmas:
+        lines = code.split('\n')
+        in_macro = False
+        in_pragma = False
+        for i in range(len(lines)):
+            l = lines[i].strip()
+            is_pragma = re.match(r'#\s*pragma\b', l) is not None
+
+            if macros and (l.startswith('#') and not is_pragma or in_macro):
+                lines[i] = ''
+                in_macro = l.endswith('\\')
+            if pragmas and (is_pragma or in_pragma):
+                lines[i] = ''
+                in_pragma = l.endswith('\\')
+        code = '\n'.join(lines)
+
     return code
 
 
-- 
2.43.0


From a9057c6175f25100d69c987f7d4d1b042d5b874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 08/74] fix: number iterations of loops with steps larger than
 one correctly

Translating between the global iteration number and loop indices ignored the step of the
loops, so iterations outside of the loop nest were simulated and others left out. The last
iteration number was taken from the loop ends instead of the last iteration.
---
 kerncraft/kernel.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 2baa796..c0d795f 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -479,15 +479,13 @@ class Kernel(object):
         base_loop_counters = {}
         global_iterator = symbol_pos_int('global_iterator')
         total_length = 1
-        last_incr = 1
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
 
             # This unspools the iterations:
             length = int_ceil((end-start), incr)
-            counter = start+(((global_iterator*last_incr) // total_length)*incr) % length
+            counter = start+((global_iterator // total_length) % length)*incr
             total_length = total_length*length
-            last_incr = incr
 
             base_loop_counters[loop_var] = sympy.lambdify(
                 global_iterator,
@@ -496,7 +494,8 @@ class Kernel(object):
 
             if git is not None:
                 try:  # Try to resolve to integer if global_iterator was given
-                    base_loop_counters[loop_var] = sympy.Integer(self.subs_consts(counter))
+                    base_loop_counters[loop_var] = sympy.Integer(
+                        self.subs_consts(counter).subs(global_iterator, git))
                     continue
                 except (ValueError, TypeError):
                     base_loop_counters[loop_var] = base_loop_counters[loop_var](git)
@@ -513,7 +512,7 @@ class Kernel(object):
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
             length = int_ceil((end-start), incr)
-            global_iterator += (loop_var - start) * total_length
+            global_iterator += (loop_var - start) / sympy.Integer(incr) * total_length
             total_length *= length
         return global_iterator
 
@@ -528,9 +527,7 @@ class Kernel(object):
 
     def max_global_iteration(self):
         """Return global iterator with last iteration number"""
-        return self.indices_to_global_iterator({
-            symbol_pos_int(var_name): end-1 for var_name, start, end, incr in self._loop_stack
-        })
+        return self.iteration_length() - 1
 
     def compile_global_offsets(self, iteration=0, spacing=0):
         """
-- 
2.43.0


From 56c41b0a73a43edf5c7f41b8a235deb69f511849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 09/74] fix: report addresses of loops with a single iteration
 for every iteration

---
 kerncraft/kernel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index c0d795f..e916a70 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -615,7 +615,9 @@ class Kernel(object):
                 # TODO take element sizes into account, return in bytes
 
         # Generate numpy.array for each counter
-        counter_per_it = [v(iteration) for v in base_loop_counters.values()]
+        # (counters of loops with a single iteration are constants and need to be broadcasted)
+        counter_per_it = [numpy.broadcast_to(v(iteration), iteration.shape)
+                          for v in base_loop_counters.values()]
 
         # Old and slow - left for reference
         ## Data access as they appear with iteration order
-- 
2.43.0


From e7a8845dd89306a54679267ee56199ede7951cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 10/74] fix: forget substitutions made before a constant is set

---
 kerncraft/kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index e916a70..0d6f3a5 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -262,6 +262,8 @@ class Kernel(object):
         # Ensure constants will always be sorted by keys
         self.constants = collections.OrderedDict(
             sorted(self.constants.items(), key=lambda i: str(i[0])))
+        # Earlier substitutions may have used another (or no) value of this constant
+        self.subs_consts.cache_clear()
 
     def set_variable(self, name, type_, size):
         """
-- 
2.43.0


From ac89d79f0070ae4c2ff824d93eba4885281f2132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 11/74] fix: count unary operators and the writes of ++ and --
 correctly

---
 kerncraft/kernel.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 0d6f3a5..6778a5f 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1147,7 +1147,17 @@ class KernelCode(Kernel):
             self._flops[stmt.op] = self._flops.get(stmt.op, 0)+1
         elif type(stmt) is c_ast.UnaryOp:
             self._p_sources(stmt.expr)
-            self._flops[stmt.op] = self._flops.get(stmt.op[-1], 0)+1
+            # -, -- and p-- are subtractions, ++ and p++ are additions
+            op = stmt.op[-1]
+            self._flops[op] = self._flops.get(op, 0)+1
+
+            if stmt.op != '-':
+                # increment and decrement also write to their operand
+                assert type(stmt.expr) in [c_ast.ArrayRef, c_ast.ID], \
+                    '-- and ++ may only be applied to array elements and variables'
+                bname = self._get_basename(stmt.expr)
+                self.destinations.setdefault(bname, set())
+                self.destinations[bname].add(self._get_offsets(stmt.expr))
 
         return sources
 
-- 
2.43.0


From 294e6091c1806770042627de0013ce1d46bef888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 12/74] fix: refuse accesses which do not match any declaration

---
 kerncraft/kernel.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 6778a5f..6b2ad68 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -950,8 +950,23 @@ class KernelCode(Kernel):
                 self.set_variable(item.name, tuple(item.type.type.names), None)
 
         self._p_for(loop_nest[-1])
+        self._check_accesses()
         self.swaps = swaps
 
+    def _check_accesses(self):
+        """Check that all accesses in loop nest match the declarations."""
+        for var_name, access in chain(*[[(n, a) for n, acs in d.items() for a in acs]
+                                        for d in [self.sources, self.destinations]]):
+            # Loop indices and constants may be read, without being declared
+            if var_name not in self.variables:
+                if access is not None or var_name in self.destinations:
+                    raise ValueError("No declaration of variable {!r} found.".format(var_name))
+                continue
+            size = self.variables[var_name][1]
+            if len(access or ()) != len(size or ()):
+                raise ValueError("Number of subscripts does not match declaration of {!r}.".format(
+                    var_name))
+
     def conv_ast_to_sym(self, math_ast):
         """
         Convert mathematical expressions to a sympy representation.
-- 
2.43.0


From 3be8e6551753aa033dc561466e4b8666decee4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 13/74] fix: refuse loops depending on or reusing counters of
 outer loops

---
 kerncraft/kernel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 6b2ad68..924114b 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1064,6 +1064,12 @@ class KernelCode(Kernel):
 
         iter_min = self.conv_ast_to_sym(floop.init.decls[0].init)
 
+        outer_indices = [symbol_pos_int(l[0]) for l in self._loop_stack]
+        assert symbol_pos_int(floop.init.decls[0].name) not in outer_indices, \
+            'each loop needs its own loop counter variable'
+        assert not (iter_min.free_symbols | iter_max.free_symbols) & set(outer_indices), \
+            'loop bounds must not depend on the counters of outer loops'
+
         if type(floop.next) is c_ast.Assignment:
             assert type(floop.next.lvalue) is c_ast.ID, \
                 'next operation may only act on loop counter'
-- 
2.43.0


From 074894913e2d02fd4496a6489b0019fcd7d1f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 14/74] fix: read octal constants in kernel code as C does

---
 kerncraft/kernel.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 924114b..84d8032 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -57,6 +57,13 @@ def symbol_pos_int(*args, **kwargs):
     return sympy.Symbol(*args, **kwargs)
 
 
+def int_literal(s):
+    """Return value of an integer literal in C notation (decimal, octal or hexadecimal)."""
+    if re.match(r'^0[0-7]+$', s):
+        return int(s, 8)
+    return int(s, 0)
+
+
 def string_to_sympy(s):
     """Convert any string to a sympy object or None."""
     if isinstance(s, int):
@@ -976,7 +983,7 @@ class KernelCode(Kernel):
         if type(math_ast) is c_ast.ID:
             return symbol_pos_int(math_ast.name)
         elif type(math_ast) is c_ast.Constant:
-            return sympy.Integer(math_ast.value)
+            return sympy.Integer(int_literal(math_ast.value))
         else:  # elif type(dim) is c_ast.BinaryOp:
             op = {
                 '*': operator.mul,
@@ -1055,7 +1062,7 @@ class KernelCode(Kernel):
             const_name = floop.cond.right.name
             iter_max = symbol_pos_int(const_name)
         elif type(floop.cond.right) is c_ast.Constant:
-            iter_max = sympy.Integer(floop.cond.right.value)
+            iter_max = sympy.Integer(int_literal(floop.cond.right.value))
         else:  # type(floop.cond.right) is c_ast.BinaryOp
             bop = floop.cond.right
             assert bop.op in '+-*', ('only addition (+), substraction (-) and multiplications (*) '
@@ -1077,7 +1084,7 @@ class KernelCode(Kernel):
             assert floop.next.lvalue.name == floop.cond.left.name == floop.init.decls[0].name, \
                 'initial, condition and next statement of for loop must act on same loop ' \
                 'counter variable'
-            step_size = int(floop.next.rvalue.value)
+            step_size = int_literal(floop.next.rvalue.value)
         else:
             assert type(floop.next.expr) is c_ast.ID, 'next operation may only act on loop counter'
             assert floop.next.expr.name == floop.cond.left.name == floop.init.decls[0].name, \
-- 
2.43.0


From a7a068ef08e1e62d4339202c85e73547bec2dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 15/74] fix: keep names known to sympy as symbols in kernel
 descriptions

---
 kerncraft/kernel.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 84d8032..3112ebd 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -13,7 +13,6 @@ import numbers
 import collections
 from datetime import datetime
 from functools import reduce, lru_cache
-import string
 from collections import defaultdict
 from itertools import chain
 import random
@@ -73,13 +72,9 @@ def string_to_sympy(s):
     elif s is None:
         return None
     else:
-        # Step 1 build expression with the whole alphabet redefined:
-        local_dict = {c: symbol_pos_int(c) for c in s if c in string.ascii_letters}
-        # TODO find nicer solution for N and other pre-mapped letters
-        preliminary_expr = parse_expr(s, local_dict=local_dict)
-        # Replace all free symbols with positive integer versions:
-        local_dict.update(
-            {s.name: symbol_pos_int(s.name) for s in preliminary_expr.free_symbols})
+        # All names stand for positive integers, even if they have a meaning in sympy (e.g. N or pi)
+        local_dict = {name: symbol_pos_int(name)
+                      for name in re.findall(r'(?<![\w.])[A-Za-z_]\w*\b(?!\s*\()', s)}
         return parse_expr(s, local_dict=local_dict)
 
 
-- 
2.43.0


From 089eadc0059bc5c63e8d40b2a0c61724ca4bc58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 16/74] fix: make aligned_malloc linkable without inlining

---
 kerncraft/headers/kerncraft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/headers/kerncraft.h b/kerncraft/headers/kerncraft.h
index 5624537..b12b0ed 100644
--- a/kerncraft/headers/kerncraft.h
+++ b/kerncraft/headers/kerncraft.h
@@ -6,7 +6,7 @@
 #define swap(a, b) {void* t = a; a = b; b = t;}
 
 
-inline void* aligned_malloc(size_t size, size_t align) {
+static inline void* aligned_malloc(size_t size, size_t align) {
     // Based on http://stackoverflow.com/q/16376942
     void *result;
     #if defined(_MSC_VER)
-- 
2.43.0


From 6d6f9297a4b5bc758b723022713f674a711b5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 17/74] fix: make generated code of kernels with swaps linkable
 and free of races

---
 kerncraft/kernel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 3112ebd..6a3aef3 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1301,6 +1301,8 @@ class KernelCode(Kernel):
         """
         with set_recursionlimit(100000):
             kernel = deepcopy(self.get_kernel_loop_nest())
+        # swaps must not exchange the arrays of the main program
+        kernel = [s for s in kernel if type(s) is not c_ast.FuncCall]
         # traverse to the inner most for loop:
         inner_most = self._find_inner_most_loop(kernel)
         orig_inner_stmt = inner_most.stmt
@@ -1484,6 +1486,10 @@ class KernelCode(Kernel):
                 # remove all omp pragmas
                 code = re.sub('#pragma omp[^\n]*\n', '', code)
 
+            if self.swaps:
+                # swap macro is defined in kerncraft.h
+                code = '#include "kerncraft.h"\n\n' + code
+
             # Store to file
             with open(file_path, 'w') as f:
                 f.write(code)
-- 
2.43.0


From 3067603bb89fe89fffe12668d99ee3eff9d5a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 18/74] fix: insert omp for also if only other omp pragmas are
 present

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 6a3aef3..3dd4c93 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1257,7 +1257,7 @@ class KernelCode(Kernel):
         for op in omp_pragmas:
             op.string = op.string.replace(' parallel', '')
         # if no omp for pragmas are present, insert suitable one at start of outer loop
-        if not omp_pragmas:
+        if not any('for' in p.string.split() for p in omp_pragmas):
             loop_nest.insert(0, c_ast.Pragma("omp for"))
 
         return loop_nest
-- 
2.43.0


From a6d09a2037572b38b3ed63801ecb6f56c299fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 19/74] fix: build the cache hierarchy for the requested number
 of cores

---
 kerncraft/machinemodel.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 173ae58..50c9a57 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -422,22 +422,18 @@ class MachineModel(object):
 
         :param cores: core count (default: 1)
         """
-        if hasattr(self, '_cachesimulator'):
-            self._cachesimulator.mark_all_invalid()
-            self._cachesimulator.reset_stats()
-        else:
-            cache_dict = {}
-            for c in self['memory hierarchy']:
-                # Skip main memory
-                if 'cache per group' not in c:
-                    continue
-                cache_dict[c['level']] = deepcopy(c['cache per group'])
-                cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
-                # Scale size of last cache according to cores (typically shared within NUMA domain)
-                if c['cores per group'] > 1:
-                    cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
-
-            self._cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
+        cache_dict = {}
+        for c in self['memory hierarchy']:
+            # Skip main memory
+            if 'cache per group' not in c:
+                continue
+            cache_dict[c['level']] = deepcopy(c['cache per group'])
+            cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
+            # Scale size of last cache according to cores (typically shared within NUMA domain)
+            if c['cores per group'] > 1:
+                cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
+
+        self._cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
 
         return self._cachesimulator
 
-- 
2.43.0


From 608e4533eb9aae2a97c6af7c2103591db561ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 20/74] fix: divide shared caches among no more cores than
 share them

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 50c9a57..625543a 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -431,7 +431,8 @@ class MachineModel(object):
             cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
             # Scale size of last cache according to cores (typically shared within NUMA domain)
             if c['cores per group'] > 1:
-                cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
+                cache_dict[c['level']]['sets'] //= min(
+                    cores, int(c['cores per group']), self['cores per NUMA domain'])
 
         self._cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
 
-- 
2.43.0


From 811c8a2481999a40c9e30e75083f7697551a2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:02 +0000
Subject: [PATCH 21/74] fix: recognise complete sweeps which end with a full
 warm-up chunk

---
 kerncraft/cacheprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 0d7c517..13df49c 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -570,7 +570,7 @@ class CacheSimulationPredictor(CachePredictor):
         while invalid_entries > 0 and step < max_steps and not complete_sweep:
             prev_warmup_iteration = warmup_iteration
             warmup_iteration = warmup_iteration + warmup_increment
-            if warmup_iteration > max_iterations:
+            if warmup_iteration >= max_iterations:
                 warmup_iteration = max_iterations
                 complete_sweep = True
 
-- 
2.43.0


From 8c08da85f4bf93bdcd6c9cbd002949f45584d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 22/74] fix: number iterations with integer arithmetic

---
 kerncraft/cacheprediction.py | 4 ++--
 kerncraft/kernel.py          | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 13df49c..f94703b 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -675,8 +675,8 @@ class CacheSimulationPredictor(CachePredictor):
         elif subtract:
             return int(iteration - (diff // element_size) // inner_increment)
         else:
-            return int(iteration + (elements_per_cacheline - diff // element_size)
-                       // inner_increment)
+            return int(iteration + ceildiv(elements_per_cacheline - diff // element_size,
+                                           inner_increment))
 
     def get_loads(self):
         """Return a list with number of loaded cache lines per memory hierarchy level."""
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 3dd4c93..01939fd 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -482,6 +482,7 @@ class Kernel(object):
         # unwind global iteration count into loop counters:
         base_loop_counters = {}
         global_iterator = symbol_pos_int('global_iterator')
+        floor_divide = sympy.Function('floor_divide')
         total_length = 1
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
@@ -489,12 +490,14 @@ class Kernel(object):
             # This unspools the iterations:
             length = int_ceil((end-start), incr)
             counter = start+((global_iterator // total_length) % length)*incr
-            total_length = total_length*length
 
+            # sympy would divide with floating point numbers, thus floor_divide is used
             base_loop_counters[loop_var] = sympy.lambdify(
                 global_iterator,
-                self.subs_consts(counter),
-                modules='numpy')
+                self.subs_consts(
+                    start+(floor_divide(global_iterator, total_length) % length)*incr),
+                modules=[{'floor_divide': numpy.floor_divide}, 'numpy'])
+            total_length = total_length*length
 
             if git is not None:
                 try:  # Try to resolve to integer if global_iterator was given
-- 
2.43.0


From 632117f1027f99c84f33c3c34cad8ae8983e2b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 23/74] fix: make dumping machine files work and keep all
 digits and strings

---
 kerncraft/machinemodel.py | 7 ++++++-
 kerncraft/prefixedunit.py | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 625543a..df5c2f8 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -611,7 +611,12 @@ class MachineModel(object):
         Return YAML string to store machine model and store to f (if path or fp passed).
         """
         yaml = ruamel.yaml.YAML()
-        yaml_string = yaml.dump(self._data)
+        yaml.register_class(PrefixedUnit)
+        # Wrapping long lines would change the whitespace in strings
+        yaml.width = sys.maxsize
+        yaml_stream = io.StringIO()
+        yaml.dump(self._data, yaml_stream)
+        yaml_string = yaml_stream.getvalue()
         if f is None:
             f = self._path
 
diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index a8c4dee..ff1fffa 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -1,4 +1,5 @@
 #!/usr/bin/env python3
+import decimal
 import re
 
 import ruamel.yaml
@@ -20,7 +21,10 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
 
     @classmethod
     def to_yaml(cls, dumper, data):
-        return dumper.represent_scalar(cls.yaml_tag, str(data))
+        # Unlike str(), keep all digits (and do not use exponents)
+        value = format(decimal.Decimal(repr(data.value)), 'f')
+        return dumper.represent_scalar(
+            cls.yaml_tag, '{} {}{}'.format(value, data.prefix, data.unit).strip())
 
     def __init__(self, *args):
         if len(args) == 1:
-- 
2.43.0


From ebcb8e9586c1db4bb559c0c5597cbd26db1ff27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 24/74] fix: do not share machine data between machine objects

---
 kerncraft/machinemodel.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index df5c2f8..7f6bd33 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -157,15 +157,16 @@ class MachineModel(object):
         if path_to_yaml:
             yaml = ruamel.yaml.YAML(typ='unsafe')
             yaml.register_class(PrefixedUnit)
-            # Load into cache and save to self._data
+            # Load into cache (unless the file has changed since) and save copy to self._data
             abspath_to_yaml = os.path.abspath(path_to_yaml)
-            if abspath_to_yaml not in self._loaded_machine_yaml:
-                with open(path_to_yaml, 'r') as f:
-                    # Ignore ruamel unsafe loading warning, by supplying Loader parameter
-                    self._loaded_machine_yaml[abspath_to_yaml] = yaml.load(f)
-            self._data = self._loaded_machine_yaml[abspath_to_yaml]
+            with open(path_to_yaml, 'r') as f:
+                content = f.read()
+            if self._loaded_machine_yaml.get(abspath_to_yaml, (None, None))[0] != content:
+                # Ignore ruamel unsafe loading warning, by supplying Loader parameter
+                self._loaded_machine_yaml[abspath_to_yaml] = (content, yaml.load(content))
+            self._data = deepcopy(self._loaded_machine_yaml[abspath_to_yaml][1])
         elif machine_yaml:
-            self._data = machine_yaml
+            self._data = deepcopy(machine_yaml)
 
         assert 'kerncraft version' in self._data, \
             "Machine description requires a 'kerncraft version' entry, containg the kerncraft " \
-- 
2.43.0


From 897facc3ce072a46dbd09e6e216a1eaa99878050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 25/74] fix: identifier of machines without a file

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 7f6bd33..99cedd1 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -407,7 +407,7 @@ class MachineModel(object):
         if self._path:
             return os.path.basename(self._path)
         else:
-            return hashlib.sha256(hashlib.sha256(repr(self._data).encode())).hexdigest()
+            return hashlib.sha256(repr(self._data).encode()).hexdigest()
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From 6b3f58cd38887a5d3a3c5d7a6ba5f1313a98bda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 26/74] fix: do not share or change cached readouts

---
 kerncraft/machinemodel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 99cedd1..c15f850 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -190,10 +190,10 @@ class MachineModel(object):
                machine_state=True, cpuinfo_path: str='/proc/cpuinfo'):
         """Update model from readouts and benchmarks on current machine."""
         if readouts:
-            self._data.update(get_machine_readouts(cpuinfo_path=cpuinfo_path))
+            self._data.update(deepcopy(get_machine_readouts(cpuinfo_path=cpuinfo_path)))
         if memory_hierarchy:
-            self._data.update(get_memory_hierarchy(placeholders=overwrite,
-                                                   cpuinfo_path=cpuinfo_path))
+            self._data.update(deepcopy(get_memory_hierarchy(placeholders=overwrite,
+                                                            cpuinfo_path=cpuinfo_path)))
 
         if benchmarks:
             self._update_benchmarks()
@@ -550,7 +550,7 @@ class MachineModel(object):
 
         :return: True if it is the same
         """
-        current_topology = get_machine_readouts()
+        current_topology = deepcopy(get_machine_readouts())
         current_topology.update(get_memory_hierarchy())
         same = True
         for k in ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core',
-- 
2.43.0


From e65452e73e221ad088bfc3371796351a68875d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 27/74] fix: compare stored benchmark configuration with the
 current one

---
 kerncraft/machinemodel.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index c15f850..8fa3436 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -288,19 +288,21 @@ class MachineModel(object):
                 needs_update = False
                 if threads_per_core in measurement:
                     for k, v in sizes_dict.items():
-                        if k in measurement[threads_per_core]:
-                            if v == sizes_dict[k]:
-                                # Exact compartison matched
-                                continue
-                            for i, j in zip(v, sizes_dict[k]):
-                                # Fuzzy comparison with relative error tolerance of 1%
-                                if abs(i - j)/min(i, j) >= 0.01:
-                                    needs_update = True
-                                    break
-                        else:
+                        if k not in measurement[threads_per_core]:
                             # If k is missing in measurement, will need to overwrite
                             needs_update = True
                             break
+                        stored = measurement[threads_per_core][k]
+                        if v == stored:
+                            # Exact compartison matched
+                            continue
+                        # Fuzzy comparison with relative error tolerance of 1%
+                        if not isinstance(v, list) or not isinstance(stored, list) or \
+                                len(v) != len(stored) or \
+                                any(abs(float(i) - float(j)) >= 0.01*min(float(i), float(j))
+                                    for i, j in zip(v, stored)):
+                            needs_update = True
+                            break
 
                 if overwrite or threads_per_core not in measurement or needs_update or \
                         'results' not in measurement[threads_per_core] or \
-- 
2.43.0


From fd45a4427d5293f28932691801ac04222ce18a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 28/74] fix: keep finished measurements of an interrupted
 benchmark kernel

---
 kerncraft/machinemodel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 8fa3436..e4d7696 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -355,9 +355,8 @@ class MachineModel(object):
                     measurement = benchmarks['measurements'][mem_level][threads_per_core]
                     if overwrite or kernel not in measurement['results'] or \
                             kernel not in measurement['stats'] or \
-                            not (len(measurement['results'][kernel]) ==
-                                 len(measurement['stats'][kernel]) ==
-                                 len(measurement['total size'])):
+                            len(measurement['results'][kernel]) != \
+                            len(measurement['stats'][kernel]):
                         measurement['results'][kernel] = []
                         measurement['stats'][kernel] = []
 
-- 
2.43.0


From 463f60104f0a6c757df3aa938267ad12a7a6e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 29/74] fix: use of total_size before assignment in verbose
 benchmark runs

---
 kerncraft/machinemodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index e4d7696..f73f295 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -349,8 +349,6 @@ class MachineModel(object):
 
             # Run actual benchmarks and safe machine file in between
             for mem_level in sorted(list(benchmarks['measurements'].keys())):
-                if verbose > 1:
-                    print('Running for {} with {}kB'.format(mem_level, int(float(total_size) / 1000)), file=sys.stderr)
                 for threads_per_core in sorted(list(benchmarks['measurements'][mem_level].keys())):
                     measurement = benchmarks['measurements'][mem_level][threads_per_core]
                     if overwrite or kernel not in measurement['results'] or \
@@ -364,6 +362,9 @@ class MachineModel(object):
                         if len(measurement['results'][kernel]) > i:
                             # Skip already existing data
                             continue
+                        if verbose > 1:
+                            print('Running for {} with {}kB'.format(
+                                mem_level, int(float(total_size) / 1000)), file=sys.stderr)
                         stats = []
                         for r in range(repetitions):
                             stats.append(measure_bw(
-- 
2.43.0


From 82f5f05b57f54a73a827ac324a16f36e013c8d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 30/74] fix: reading the memory hierarchy without placeholders

---
 kerncraft/machinemodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index f73f295..4ec635b 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -743,6 +743,7 @@ def get_memory_hierarchy(placeholders=True, cpuinfo_path: str='/proc/cpuinfo'):
                         'INFORMATION_REQUIRED (e.g. "half-duplex" or "full-duplex")']
         elif line.startswith('Size:'):
             size = PrefixedUnit(line.split(':')[1].strip())
+            mem_level['cache per group'] = OrderedDict()
             if placeholders:
                 mem_level['cache per group'] = OrderedDict([
                     ('sets', 'INFORMATION_REQUIRED (sets*ways*cl_size=' + str(size) + ')'),
-- 
2.43.0


From c5d9cf755676c2111e3a5c2ac17789e226ee49cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:55 +0000
Subject: [PATCH 31/74] fix: replace machine files at once and only when there
 is something to save

---
 kerncraft/machinemodel.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 4ec635b..3856bc9 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -9,6 +9,7 @@ from datetime import datetime
 from distutils.spawn import find_executable
 from distutils.version import LooseVersion
 import re
+import shutil
 from collections import OrderedDict
 from copy import deepcopy, copy
 import hashlib
@@ -623,11 +624,30 @@ class MachineModel(object):
         if f is None:
             f = self._path
 
-        if isinstance(f, io.IOBase):
+        if f is None:
+            pass
+        elif isinstance(f, io.IOBase):
             f.write(yaml_string)
-        else:
+        elif os.path.exists(f) and not os.path.isfile(f):
+            # Devices and pipes can not be replaced
             with open(f, 'w') as fp:
                 fp.write(yaml_string)
+        else:
+            # Replace file at once, an interruption must not leave an incomplete file behind
+            f = os.path.realpath(f)
+            temp_f = '{}.{}.tmp'.format(f, os.getpid())
+            try:
+                with open(temp_f, 'w') as fp:
+                    fp.write(yaml_string)
+                    fp.flush()
+                    os.fsync(fp.fileno())
+                if os.path.exists(f):
+                    shutil.copymode(f, temp_f)
+                os.replace(temp_f, f)
+            except BaseException:
+                if os.path.exists(temp_f):
+                    os.unlink(temp_f)
+                raise
 
         return yaml_string
 
@@ -892,8 +912,8 @@ def main():
     parser.add_argument('--compare-host', action='store_true',
                         help='Compares machine file (require --machine) with current hosts and '
                               'reports if system differs in a configuration.')
-    parser.add_argument('output_file', metavar='FILE', type=argparse.FileType('w'), default='-',
-                        help='File to save new machine description to.')
+    parser.add_argument('output_file', metavar='FILE', type=str,
+                        help='File to save new machine description to, "-" for standard output.')
 
     parser.set_defaults(readouts=True, memory_hierarchy=True, benchmarks=True, overwrite=True)
 
@@ -901,7 +921,7 @@ def main():
 
     if args.compare_host:
         if not args.machine:
-            raise argparse.ArgumentError("--compare-host requires --machine")
+            parser.error("--compare-host requires --machine")
         m = MachineModel(args.machine.name)
         if m.current_system(print_diff=True):
             sys.exit(0)
@@ -913,7 +933,7 @@ def main():
     else:
         m = MachineModel(args=args)
 
-    m.set_path(args.output_file.name)
+    m.set_path(args.output_file if args.output_file != '-' else None)
 
     try:
         m.update(readouts=args.readouts, memory_hierarchy=args.memory_hierarchy,
@@ -921,7 +941,7 @@ def main():
     except KeyboardInterrupt:
         print("Incomplete machine file was written. Continue by providing it via -m argument.")
     
-    m.dump()
+    m.dump(sys.stdout if args.output_file == '-' else None)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 326a544293230741a4eca06da842105f176c74bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:21 +0000
Subject: [PATCH 32/74] fix: refuse malformed ranges and do not share
 definitions between parses

---
 kerncraft/kerncraft.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 6e96958..0a912a7 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -102,30 +102,34 @@ class AppendStringRange(argparse.Action):
         if len(values) != 2:
             message = 'requires 2 arguments'
         else:
-            m = re.match(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
-                         r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
-                         values[1])
+            m = re.fullmatch(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
+                             r'(?:(?P<log>log)(?P<base>\d+)?)?)?)?',
+                             values[1])
             if m:
                 gd = m.groupdict()
-                if gd['stop'] is None:
-                    values[1] = [int(gd['start'])]
-                elif gd['num'] is None:
-                    values[1] = list(range(int(gd['start']), int(gd['stop']) + 1))
+                start = int(gd['start'])
+                stop = int(gd['stop']) if gd['stop'] is not None else start
+                num = int(gd['num']) if gd['num'] is not None else None
+                log = gd['log'] is not None
+                base = int(gd['base']) if gd['base'] is not None else 10
+                if num is None and stop < start:
+                    message = 'stop must not be smaller than start'
+                elif num is not None and num < 2:
+                    message = 'num has to be at least 2'
+                elif log and (start < 1 or stop < 1 or base < 2):
+                    message = 'start and stop have to be at least 1 and base at least 2 with log'
+                elif num is None:
+                    values[1] = list(range(start, stop + 1))
                 else:
-                    log = gd['log'] is not None
-                    base = int(gd['base']) if gd['base'] is not None else 10
-                    values[1] = list(space(
-                        int(gd['start']), int(gd['stop']), int(gd['num']), log=log, base=base))
+                    values[1] = list(space(start, stop, num, log=log, base=base))
             else:
                 message = 'second argument must match: start[-stop[:num[log[base]]]]'
 
         if message:
             raise argparse.ArgumentError(self, message)
 
-        if hasattr(namespace, self.dest):
-            getattr(namespace, self.dest).append(values)
-        else:
-            setattr(namespace, self.dest, [values])
+        # Build new list, to not modify the default shared by all uses of this parser
+        setattr(namespace, self.dest, list(getattr(namespace, self.dest, None) or []) + [values])
 
 
 class VersionAction(argparse.Action):
-- 
2.43.0


From ee5ab9b3c60cbc06aabdcd9268106a75900dd27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 33/74] fix: let spaced ranges reach large ends exactly

---
 kerncraft/kerncraft.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 0a912a7..e05521f 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -11,6 +11,7 @@ import math
 import re
 import itertools
 from datetime import datetime
+from fractions import Fraction
 from functools import lru_cache
 import atexit
 import io
@@ -39,21 +40,21 @@ def space(start, stop, num, endpoint=True, log=False, base=10):
         "start, stop and num need to be intergers"
     assert num >= 2, "num has to be atleast 2"
 
-    if log:
-        start = math.log(start, base)
-        stop = math.log(stop, base)
-
-    if endpoint:
-        step_length = float((stop - start)) / float(num - 1)
-    else:
-        step_length = float((stop - start)) / float(num)
+    steps = num - 1 if endpoint else num
 
     i = 0
     while i < num:
-        if log:
-            yield int(round(base ** (start + i * step_length)))
+        if i == 0:
+            yield start
+        elif i == steps:
+            yield stop
+        elif log:
+            log_start = math.log(start, base)
+            log_stop = math.log(stop, base)
+            yield int(round(base ** (log_start + i * (log_stop - log_start) / steps)))
         else:
-            yield int(round(start + i * step_length))
+            # Exact, also for integers which can not be represented as float
+            yield int(round(Fraction(start * steps + i * (stop - start), steps)))
         i += 1
 
 
-- 
2.43.0


From 39adb89169561bfc0b777c9415fcca4964b6fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 34/74] fix: evaluate each combination of constants once, in a
 fixed order

---
 kerncraft/kerncraft.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index e05521f..ceb6676 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -353,29 +353,19 @@ def run(parser, args, output_file=sys.stdout):
         # build defines permutations
         define_dict = OrderedDict()
         args.define.sort()
-        # Prefill with default value, if any is given
-        if '.' in [n for n,v in args.define]:
-            default_const_values = dict(args.define)['.']
-            for name in required_consts:
-                name = str(name)
-                define_dict[str(name)] = [[str(name), v] for v in default_const_values]
-        for name, values in args.define:
-            if name not in [str(n) for n in required_consts]:
-                # ignore
-                continue
-            if name not in define_dict:
+        # Definitions of constants which are not required are ignored
+        for name in sorted([str(n) for n in required_consts]):
+            # Default values (defined for .) apply to all constants
+            values = uniquify([v for n, vs in args.define if n in ['.', name] for v in vs])
+            if values:
                 define_dict[name] = [[name, v] for v in values]
-                continue
-            for v in values:
-                if v not in define_dict[name]:
-                    define_dict[name].append([name, v])
         define_product = list(itertools.product(*list(define_dict.values())))
         # Check that all consts have been defined
         if set(required_consts).difference(set([symbol_pos_int(k) for k in define_dict.keys()])):
             raise ValueError("Not all constants have been defined. Required are: {}".format(
                 required_consts))
     else:
-        define_product = [{}]
+        define_product = [()]
 
     for define in define_product:
         # Reset state of kernel
-- 
2.43.0


From 196c1d870e41e1c6ec95790a1d4ee26af6adf086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 35/74] fix: picklemerge with current Python

---
 kerncraft/picklemerge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index e2bf290..8fe12d6 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -1,8 +1,10 @@
 #!/usr/bin/env python3
 """Merge two pickle files containing dictionarys recursively."""
 import argparse
+import os
 import pickle
-import collections
+import shutil
+from collections.abc import Mapping
 
 
 def update(d, u):
@@ -12,7 +14,7 @@ def update(d, u):
     Origin: http://stackoverflow.com/a/3233356/2754040
     """
     for k, v in u.items():
-        if isinstance(v, collections.Mapping):
+        if isinstance(v, Mapping):
             r = update(d.get(k, {}), v)
             d[k] = r
         else:
@@ -33,11 +35,11 @@ def main():
     args = parser.parse_args()
 
     result = pickle.load(args.destination)
-    assert isinstance(result, collections.Mapping), "only Mapping types can be handled."
+    assert isinstance(result, Mapping), "only Mapping types can be handled."
 
     for s in args.source:
         data = pickle.load(s)
-        assert isinstance(data, collections.Mapping), "only Mapping types can be handled."
+        assert isinstance(data, Mapping), "only Mapping types can be handled."
 
         update(result, data)
 
-- 
2.43.0


From 6f384ccedb83b4989c38171e8ee6cab62da32287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 36/74] fix: merge pickle files without risking the destination

---
 kerncraft/picklemerge.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index 8fe12d6..492782f 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -15,8 +15,8 @@ def update(d, u):
     """
     for k, v in u.items():
         if isinstance(v, Mapping):
-            r = update(d.get(k, {}), v)
-            d[k] = r
+            r = d.get(k)
+            d[k] = update(r if isinstance(r, Mapping) else {}, v)
         else:
             d[k] = u[k]
     return d
@@ -43,9 +43,14 @@ def main():
 
         update(result, data)
 
-    args.destination.seek(0)
-    args.destination.truncate()
-    pickle.dump(result, args.destination)
+    # Replace destination at once, an interruption must not leave an incomplete file behind
+    args.destination.close()
+    destination = os.path.realpath(args.destination.name)
+    temp_name = destination + '.tmp'
+    with open(temp_name, 'wb') as f:
+        pickle.dump(result, f)
+    shutil.copymode(destination, temp_name)
+    os.replace(temp_name, destination)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 8e8570d9fac8c8bc3c72d8e3516d92ff10543881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 37/74] fix: do not make the JSON file name part of result
 identifiers

---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index ceb6676..9c81fb8 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -268,7 +268,7 @@ def identifier_from_arguments(args, **kwargs):
         if k in kwargs:
             identifier.append((k, kwargs[k]))
             continue
-        if k in ['verbose', 'store', 'unit', 'clean_intermediates']:
+        if k in ['verbose', 'store', 'json', 'unit', 'clean_intermediates']:
             # Ignore these, as they do not change the outcome
             continue
         v = args.__dict__[k]
-- 
2.43.0


From 5627882a6dea784ccefb4319e5f0b38442b26356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:10 +0000
Subject: [PATCH 38/74] fix: refuse counters without a possible register

---
 kerncraft/models/benchmark.py | 16 ++++++++++++----
 likwid-counter-packing.py     | 18 +++++++++++++-----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 9f6b840..3df75b9 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -108,6 +108,7 @@ def register_options(regdescr):
     """
     if not regdescr:
         yield None
+        return
     tokenizer = ('\[(?P<grp>[^]]+)\]|'
                  '(?P<chr>.)')
     for u in regdescr.split('|'):
@@ -144,10 +145,11 @@ def eventstr(event_tuple=None, event=None, register=None, parameters=None):
     >>> eventstr(event='DTLB_LOAD_MISSES_WALK_DURATION', register='PMC3')
     'DTLB_LOAD_MISSES_WALK_DURATION:PMC3'
     """
-    if len(event_tuple) == 3:
-        event, register, parameters = event_tuple
-    elif len(event_tuple) == 2:
-        event, register = event_tuple
+    if event_tuple is not None:
+        if len(event_tuple) == 3:
+            event, register, parameters = event_tuple
+        else:
+            event, register = event_tuple
     event_dscr = [event, register]
 
     if parameters:
@@ -161,6 +163,12 @@ def build_minimal_runs(events):
     # Eliminate multiples
     events = [e for i, e in enumerate(events) if events.index(e) == i]
 
+    # Events without a register could never be scheduled
+    for event, registers, parameters in events:
+        if not list(register_options(registers)):
+            raise ValueError("No register matches {!r}, given for event {!r}.".format(
+                registers, event))
+
     # Build list of runs per register group
     scheduled_runs = {}
     scheduled_events = []
diff --git a/likwid-counter-packing.py b/likwid-counter-packing.py
index f0ec1e8..da48a34 100755
--- a/likwid-counter-packing.py
+++ b/likwid-counter-packing.py
@@ -54,6 +54,7 @@ def register_options(regdescr):
     """
     if not regdescr:
         yield None
+        return
     tokenizer = ('\[(?P<grp>[^]]+)\]|'
                  '(?P<chr>.)')
     for u in regdescr.split('|'):
@@ -90,14 +91,15 @@ def eventstr(event_tuple=None, event=None, register=None, parameters=None):
     >>> eventstr(event='DTLB_LOAD_MISSES_WALK_DURATION', register='PMC3')
     'DTLB_LOAD_MISSES_WALK_DURATION:PMC3'
     """
-    if len(event_tuple) == 3:
-        event, register, parameters = event_tuple
-    elif len(event_tuple) == 2:
-        event, register = event_tuple
+    if event_tuple is not None:
+        if len(event_tuple) == 3:
+            event, register, parameters = event_tuple
+        else:
+            event, register = event_tuple
     event_dscr = [event, register]
 
     if parameters:
-        for k, v in sorted(event_tuple[2].items()):  # sorted for reproducability
+        for k, v in sorted(parameters.items()):  # sorted for reproducability
             if type(v) is int:
                 k += "={}".format(hex(v))
             event_dscr.append(k)
@@ -109,6 +111,12 @@ def build_minimal_runs(events):
     # Eliminate multiples
     events = [e for i, e in enumerate(events) if events.index(e) == i]
 
+    # Events without a register could never be scheduled
+    for event, registers, parameters in events:
+        if not list(register_options(registers)):
+            raise ValueError("No register matches {!r}, given for event {!r}.".format(
+                registers, event))
+
     # Build list of runs per register group
     scheduled_runs = {}
     scheduled_events = []
-- 
2.43.0


From 9e5044e8092e6bdd283e0c6c37f7f62dada36d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 39/74] fix: replace each counter of a metric individually

---
 kerncraft/machinemodel.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 3856bc9..feb2122 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -18,6 +18,7 @@ from functools import lru_cache
 import psutil
 import ruamel.yaml
 import cachesim
+from sympy import Basic, Symbol
 from sympy.parsing.sympy_parser import parse_expr
 
 from .prefixedunit import PrefixedUnit
@@ -588,25 +589,28 @@ class MachineModel(object):
     def parse_perfmetric(metric):
         """Return (sympy expressions, event names and symbols dict) from performance metric str."""
         metric = str(metric)
-        # Find all perfs counter references
-        perfcounters = re.findall(r'[A-Z0-9_]+:[A-Z0-9\[\]|\-]+(?::[A-Za-z0-9\-_=]+)*', metric)
-
-        # Build a temporary metric, with parser-friendly Symbol names
-        temp_metric = metric
-        temp_pc_names = {"SYM{}".format(re.sub("[\[\]\-|=:]", "_", pc)): pc
-                         for i, pc in enumerate(perfcounters)}
-        for var_name, pc in temp_pc_names.items():
-            temp_metric = temp_metric.replace(pc, var_name)
-        # Parse temporary expression
-        expr = parse_expr(temp_metric)
-
-        # Rename symbols to originals
-        for s in expr.free_symbols:
-            if s.name in temp_pc_names:
-                s.name = temp_pc_names[str(s)]
+        # Build a temporary metric, with parser-friendly Symbol names in place of perf counter
+        # references. Each occurrence is replaced individually, by names not used in the metric.
+        prefix = "PERFCTR"
+        while prefix in metric:
+            prefix += "_"
+        symbols = {}
+
+        def replace(match):
+            name = prefix + str(len(symbols))
+            symbols[name] = Symbol(match.group(0))
+            return name
+
+        temp_metric = re.sub(r'(?<![A-Za-z0-9_])[A-Z0-9_]+:(?:[A-Z0-9|]|\[[A-Za-z0-9\-]+\])+'
+                             r'(?::[A-Za-z0-9_]+(?:=[A-Za-z0-9_]+)?)*(?![A-Za-z0-9_])',
+                             replace, metric)
+        # Parse temporary expression, this also restores the original names
+        expr = parse_expr(temp_metric, local_dict=dict(symbols))
+        if not isinstance(expr, Basic):
+            raise SyntaxError("not a metric: {!r}".format(metric))
 
         events = {s: MachineModel.parse_perfctr_event(s.name) for s in expr.free_symbols
-                  if s.name in perfcounters}
+                  if s in symbols.values()}
 
         return expr, events
 
-- 
2.43.0


From 71dbc581461583748e1f493ec79a4f48bbaae5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:44 +0000
Subject: [PATCH 40/74] fix: refuse malformed stand-alone benchmark arguments

---
 kerncraft/standalone_pheno.py | 257 +++++++++++++---------------------
 1 file changed, 101 insertions(+), 156 deletions(-)

diff --git a/kerncraft/standalone_pheno.py b/kerncraft/standalone_pheno.py
index 7dd6db5..ec5e12a 100644
--- a/kerncraft/standalone_pheno.py
+++ b/kerncraft/standalone_pheno.py
@@ -20,6 +20,10 @@ from .kernel import BinaryDescription, symbol_pos_int
 from .machinemodel import MachineModel
 
 
+# Pattern of a single likwid region name
+REGION = r'[^\d,:]\w*'
+
+
 class AppendStringRange(argparse.Action):
     """
     Argparse Action to append integer range from string.
@@ -37,54 +41,50 @@ class AppendStringRange(argparse.Action):
         message = ''
         variables = {}
 
-        if len(values) != 2:
-            message = 'requires 2 arguments'
-        else:
-            # optional: likwid region(s) for which this variable is specified
-            m = re.match(r'(?:(?P<region>(\D\w*,)*\D\w*):)?' 
-                         r'(?:(?P<start_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)?:?)'
-                         r'(?:(?P<stop_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)?\:?)?'
-                         r'(?:(?P<scale_var>log|lin)?)?', values[1])
-
-            if m:
-                gd = m.groupdict()
-
-                if gd['start_var'] is not None:
-
-                    # get likwid region(s)
-                    regions = gd['region'].split(',') if gd['region'] is not None else ['']
-                    variables['region'] = regions
-
-                    start = float(gd['start_var'])
-                    variables['start'] = start
-                    variables['value'] = start
-
-                    if gd['stop_var'] is None:
-                        variables['adjustable'] = False
-                    else:
-                        variables['adjustable'] = True
-                        stop = float(gd['stop_var'])
-                        variables['stop'] = stop
-
-                        if gd['scale_var'] is None:
-                            variables['scale'] = 'lin' if stop > start else 'log'
-                            print("WARNING: You did not specify a scaling for your adjustable "
-                                  "variable. From the choice of your start and stop values, {} "
-                                  "scaling is assumed.".format(variables['scale']))
-                        else:
-                            variables['scale'] = gd['scale_var']
+        # optional: likwid region(s) for which this variable is specified
+        m = re.fullmatch(
+            r'(?:(?P<region>{0}(?:,{0})*):)?'
+            r'(?P<start_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)'
+            r'(?::(?P<stop_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)'
+            r'(?::(?P<scale_var>log|lin))?)?'.format(REGION), values[1])
+
+        if m:
+            gd = m.groupdict()
+
+            # get likwid region(s)
+            regions = gd['region'].split(',') if gd['region'] is not None else ['']
+            variables['region'] = regions
+
+            start = float(gd['start_var'])
+            variables['start'] = start
+            variables['value'] = start
+
+            if gd['stop_var'] is None:
+                variables['adjustable'] = False
+            elif start == 0.0:
+                message = 'start of an adjustable variable must not be zero'
             else:
-                message = 'second argument must match: [[...,]region:]start[:stop[:scale]]'
+                variables['adjustable'] = True
+                stop = float(gd['stop_var'])
+                variables['stop'] = stop
+
+                if gd['scale_var'] is None:
+                    variables['scale'] = 'lin' if stop > start else 'log'
+                    print("WARNING: You did not specify a scaling for your adjustable "
+                          "variable. From the choice of your start and stop values, {} "
+                          "scaling is assumed.".format(variables['scale']))
+                else:
+                    variables['scale'] = gd['scale_var']
+        else:
+            message = 'second argument must match: [[...,]region:]start[:stop[:scale]]'
 
         if message:
             raise argparse.ArgumentError(self, message)
 
-        if hasattr(namespace, self.dest):
-            # getattr(namespace, self.dest).append(values)
-            getattr(namespace, self.dest)[values[0]] = variables
-        else:
-            # setattr(namespace, self.dest, [values])
-            setattr(namespace, self.dest, OrderedDict(values[0], variables))
+        # Must not change the parser's default
+        defines = OrderedDict(getattr(namespace, self.dest, None) or {})
+        defines[values[0]] = variables
+        setattr(namespace, self.dest, defines)
 
 
 class AppendLoopRange(argparse.Action):
@@ -100,54 +100,39 @@ class AppendLoopRange(argparse.Action):
     def __call__(self, parser, namespace, values, option_string=None):
         """Execute action."""
 
-        message = ''
-
         # optional: likwid region(s) for which this loop range is specified
-        m = re.match(r'(?:(?P<region>(\D\w*,)*\D\w*):)?'
-                     # lower bound of loop
-                     r'(?P<start>\d+\.?\d*):'
-                     # optional: step size
-                     r'((?P<step>\d+\.?\d*):)?'
-                     # upper bound of loop
-                     r'(?P<end>\d+\.?\d*)'
-                     # optional: variable that is responsible for the loop length this is needed,
-                     # when an adjustable variable controls the upper bound of a loop
-                     r'(:(?P<variable>\D\S*))?', 
-                     values, flags=re.VERBOSE)
-        if m:
-            gd = m.groupdict()
-
-            # get (optional) region(s), defaults to empty string
-            regions = gd['region'].split(',') if gd['region'] is not None else ['']
-
-            if gd['step'] is None:
-                gd['step'] = 1
-            try:
-                start = int(gd['start'])
-                end   = int(gd['end'])
-                step  = int(gd['step'])
-
-                values = {'start': start, 'end': end, 'step': step, 'variable': gd['variable'], 
-                          'offset': None}
-            except ValueError:
-                print("Pattern of loop range must match "
-                      "'[[...,]region:]start:[step:]end[:variable]'")
-        else:
-            message = "argument must match: 'start:[step:]end|marker'"
-            raise argparse.ArgumentError(self, message)
-
-        if hasattr(namespace, self.dest):
-            # another loop has already been defined
-            for region in regions:
-                if region in getattr(namespace, self.dest).keys():
-                    # another loop has already been defined for this region
-                    getattr(namespace, self.dest)[region].append(values)
-                else:
-                    # first loop to be defined for this region
-                    getattr(namespace, self.dest)[region] = [values]
-        else:
-            # first loop to be defined
-            setattr(namespace, self.dest, [values])
+        m = re.fullmatch(r'(?:(?P<region>{0}(?:,{0})*):)?'
+                         # lower bound of loop
+                         r'(?P<start>\d+):'
+                         # optional: step size
+                         r'(?:(?P<step>\d+):)?'
+                         # upper bound of loop
+                         r'(?P<end>\d+)'
+                         # optional: variable that is responsible for the loop length this is
+                         # needed, when an adjustable variable controls the upper bound of a loop
+                         r'(?::(?P<variable>\D\S*))?'.format(REGION),
+                         values)
+        if not m:
+            raise argparse.ArgumentError(
+                self, "argument must match: '[[...,]region:]start:[step:]end[:variable]'")
+        gd = m.groupdict()
+
+        # get (optional) region(s), defaults to empty string
+        regions = gd['region'].split(',') if gd['region'] is not None else ['']
+        start = int(gd['start'])
+        end = int(gd['end'])
+        step = int(gd['step']) if gd['step'] is not None else 1
+        if step == 0:
+            raise argparse.ArgumentError(self, "step must not be zero")
+
+        # Must not change the parser's default
+        loops = {r: list(ls) for r, ls in (getattr(namespace, self.dest, None) or {}).items()}
+        for region in regions:
+            # regions do not share loop descriptions, since they may be adjusted
+            loops.setdefault(region, []).append(
+                {'start': start, 'end': end, 'step': step, 'variable': gd['variable'],
+                 'offset': None})
+        setattr(namespace, self.dest, loops)
 
 
 class AppendRepetitionDefines(argparse.Action):
@@ -161,40 +146,22 @@ class AppendRepetitionDefines(argparse.Action):
     def __call__(self, parser, namespace, values, option_string=None):
         """Execute action."""
 
-        message = ''
-        regions = []
-        qualifier = None
-        if len(values) == 0:
-            message = 'requires 1 argument'
-        else:
-            # optionally: likwid region(s) for which the number of repetitions is defined
-            m = re.match(r'(?:(?P<region>(\D\w*,)*\D\w*):)?'    
-                         # qualifier for the repetitions. Can either be a fixed number, a variable 
+        # optionally: likwid region(s) for which the number of repetitions is defined
+        m = re.fullmatch(r'(?:(?P<region>{0}(?:,{0})*):)?'
+                         # qualifier for the repetitions. Can either be a fixed number, a variable
                          # name or the specifier 'marker'
-                         r'(?P<qualifier>\w+)$',                
+                         r'(?P<qualifier>\w+)'.format(REGION),
                          values)
-            if m:
-                gd = m.groupdict()
-                try:
-                    regions = gd['region'].split(',') if gd['region'] is not None else ['']
-                    qualifier = gd['qualifier']
-
-                except ValueError:
-                    print("Pattern of loop range must match '[[...,]region:]qualifier'")
-            else:
-                message = "argument must match: '[[...,]region:]qualifier'"
+        if not m:
+            raise argparse.ArgumentError(
+                self, "argument must match: '[[...,]region:]qualifier'")
+        regions = m.group('region').split(',') if m.group('region') is not None else ['']
 
-        if message:
-            raise argparse.ArgumentError(self, message)
-
-        if hasattr(namespace, self.dest):
-            for region in regions:
-                getattr(namespace, self.dest)[region] = qualifier
-
-        else:
-            setattr(namespace, self.dest, {regions[0]: qualifier})
-            for region in regions[1:]:
-                getattr(namespace, self.dest)[region] = qualifier
+        # Must not change the parser's default
+        repetitions = dict(getattr(namespace, self.dest, None) or {})
+        for region in regions:
+            repetitions[region] = m.group('qualifier')
+        setattr(namespace, self.dest, repetitions)
 
 
 class AppendFlops(argparse.Action):
@@ -207,41 +174,19 @@ class AppendFlops(argparse.Action):
     def __call__(self, parser, namespace, values, option_string=None):
         """Execute action."""
 
-        message = ''
-        regions = []
-        flops = 0
-
-        if len(values) == 0:
-            message = 'requires 1 argument'
-        else:
-            m = re.match(r'(?:(?P<region>(\D\w*,)*\D\w*):)?(?P<flops>\d+)$',
-                         values)
-            if m:
-                gd = m.groupdict()
-                if gd['region'] is None:
-                    gd['region'] = ''
-                try:
-                    regions = gd['region'].split(',')
-                    flops = int(gd['flops'])
-
-                except ValueError:
-                    print("Pattern of flops must match '[[...,]region:]flops'")
-            else:
-                message = "argument must match: '[[...,]region:]flops'"
-
-        if message:
-            raise argparse.ArgumentError(self, message)
-
-        if hasattr(namespace, self.dest):
-            for region in regions:
-                if region in getattr(namespace, self.dest).keys():
-                    raise Exception('FLOPs can only assigned once per region.')
-                else:
-                    getattr(namespace, self.dest)[region] = flops
-        else:
-            setattr(namespace, self.dest, {regions[0]: flops})
-            for region in regions[1:]:
-                getattr(namespace, self.dest)[region] = flops
+        m = re.fullmatch(r'(?:(?P<region>{0}(?:,{0})*):)?(?P<flops>\d+)'.format(REGION), values)
+        if not m:
+            raise argparse.ArgumentError(
+                self, "argument must match: '[[...,]region:]flops'")
+        regions = m.group('region').split(',') if m.group('region') is not None else ['']
+
+        # Must not change the parser's default
+        flops = dict(getattr(namespace, self.dest, None) or {})
+        for region in regions:
+            if region in flops:
+                raise argparse.ArgumentError(self, 'FLOPs can only be assigned once per region.')
+            flops[region] = int(m.group('flops'))
+        setattr(namespace, self.dest, flops)
 
 
 class ParseMarkers(argparse.Action):
-- 
2.43.0


From 4e14ec2592a3ec1f505554d32bddf4a07ace8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:44 +0000
Subject: [PATCH 41/74] fix: keep defaults of stand-alone regions apart and
 count partial loop steps

---
 kerncraft/kernel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 01939fd..ff3a304 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -21,7 +21,7 @@ import re
 from contextlib import contextmanager
 import fcntl
 
-from math import floor
+from math import ceil
 
 import sympy
 from sympy.utilities.lambdify import implemented_function
@@ -1957,6 +1957,9 @@ class BinaryDescription(Kernel):
             for i in range(len(self.loops[region])):
                 name = self.loops[region][i]['variable']
                 if name:
+                    if name not in self.define:
+                        print('Please define {}, the variable of a loop.'.format(name))
+                        sys.exit(-1)
                     self.loops[region][i]['offset'] = \
                         self.define[name]['value'] - self.loops[region][i]['end']
 
@@ -1981,6 +1984,10 @@ class BinaryDescription(Kernel):
                     self.repetitions[region]['value'] = int(args.repetitions[region])
                 except:
                     # number of repetitions is given in terms of a variable
+                    if args.repetitions[region] not in self.define:
+                        print('Please define {}, the number of repetitions.'.format(
+                            args.repetitions[region]))
+                        sys.exit(-1)
                     self.repetitions[region]['variable'] = args.repetitions[region]
                     self.repetitions[region]['value'] = None
 
@@ -2006,12 +2013,12 @@ class BinaryDescription(Kernel):
             # use ''-values as default for not specified regions
             try:
                 if not region in self.loops:
-                    self.loops[region] = self.loops['']
+                    self.loops[region] = deepcopy(self.loops[''])
                     if self.args.verbose > 1:
                         print('WARNING: used default value for loop information in region '
                               '{}.'.format(region))
                 if not region in self.repetitions:
-                    self.repetitions[region] = self.repetitions['']
+                    self.repetitions[region] = deepcopy(self.repetitions[''])
                     if self.args.verbose > 1:
                         print('WARNING: used default value for repetition information in region '
                               '{}.'.format(region))
@@ -2062,7 +2069,8 @@ class BinaryDescription(Kernel):
 
         for loop in self.loops[region]:
             iterations_per_repetition = \
-                iterations_per_repetition * floor((loop['end'] - loop['start']) / loop['step'])
+                iterations_per_repetition * \
+                max(ceil((loop['end'] - loop['start']) / loop['step']), 0)
 
         return iterations_per_repetition
 
-- 
2.43.0


From 67875c221b24338afce961e8ac345912154822ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:44 +0000
Subject: [PATCH 42/74] fix: adjust loops of all regions that depend on a
 variable

---
 kerncraft/models/standalone_benchmark.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 2e5c3c0..3b56f6e 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -11,6 +11,7 @@ from collections import defaultdict
 import string
 import pprint
 import contextlib
+import itertools
 
 from math import ceil
 
@@ -183,11 +184,11 @@ class StandaloneBenchmark(PerformanceModel):
         The first variables defined will be adjusted first.
         """
 
-        def adjust_loop(varname, region):
-            for i in range(len(self.kernel.loops[region])):
-                if self.kernel.loops[region][i]['variable'] == varname:
-                    self.kernel.loops[region][i]['end'] = self.kernel.define[varname]['value'] - \
-                        self.kernel.loops[region][i]['offset']
+        def adjust_loops(varname):
+            # A variable has the same value in all regions
+            for loop in itertools.chain(*self.kernel.loops.values()):
+                if loop['variable'] == varname:
+                    loop['end'] = self.kernel.define[varname]['value'] - loop['offset']
 
         adjustable = False
 
@@ -206,14 +207,14 @@ class StandaloneBenchmark(PerformanceModel):
                         self.kernel.define[name]['value'] = min(variable['value'] * factor,
                                                                 variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
-                        adjust_loop(name, region)
+                        adjust_loops(name)
                         adjustable = True
                         break
                     elif variable['scale'] == 'log' and variable['value'] > variable['stop']:
                         self.kernel.define[name]['value'] = max(
                             variable['value'] * (10 ** (-factor)),variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
-                        adjust_loop(name, region)
+                        adjust_loops(name)
                         adjustable = True
                         break
 
-- 
2.43.0


From 18d095ca6a2fe81964adc7ce85e995f47085125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 43/74] fix: read counters with plain parameters and values in
 scientific notation

---
 kerncraft/models/benchmark.py            | 8 ++++++--
 kerncraft/models/standalone_benchmark.py | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 3df75b9..fc764bf 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -258,9 +258,13 @@ def perfctr(cmd, cores, group='MEM', code_markers=True, verbose=0):
             if line[2] == '-' or line[2] == 'nan':
                 counter_value = 0
             else:
-                counter_value = int(line[2])
+                try:
+                    counter_value = int(line[2])
+                except ValueError:
+                    # Some likwid versions use scientific notation
+                    counter_value = float(line[2])
             if re.fullmatch(r'[A-Z0-9_]+', line[0]) and \
-                    re.fullmatch(r'[A-Z0-9]+(:[A-Z0-9]+=[0-9a-fA-Fx]+)*', line[1]):
+                    re.fullmatch(r'[A-Z0-9]+(:[A-Za-z0-9_]+(=[A-Za-z0-9_]+)?)*', line[1]):
                 results.setdefault(line[0], {})
                 results[line[0]][line[1]] = counter_value
                 continue
diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 3b56f6e..2229cf2 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -143,7 +143,11 @@ class StandaloneBenchmark(PerformanceModel):
                 if line[2] == '-' or line[2] == 'nan':
                     counter_value = 0
                 else:
-                    counter_value = int(line[2])
+                    try:
+                        counter_value = int(line[2])
+                    except ValueError:
+                        # Some likwid versions use scientific notation
+                        counter_value = float(line[2])
                 if re.fullmatch(r'[A-Z0-9_]+', line[0]) and re.fullmatch(r'[A-Z0-9]+', line[1]):
                     results[current_region].setdefault(line[0], {})
                     results[current_region][line[0]][line[1]] = counter_value
-- 
2.43.0


From d5c5401361ccbfaf3fd01e3fce5aa759a2ac9bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 44/74] fix: benchmark machines without all performance counter
 metrics

---
 kerncraft/models/benchmark.py | 43 +++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index fc764bf..9b334fc 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -413,23 +413,32 @@ class Benchmark(PerformanceModel):
                                     self.kernel.bytes_per_iteration)
         cys_per_repetition = time_per_repetition * float(self.machine['clock'])
 
-        try:
-            # Build events and sympy expressions for all model metrics
-            T_OL, event_counters = self.machine.parse_perfmetric(
-                self.machine['overlapping model']['performance counter metric'])
-            T_data, event_dict = self.machine.parse_perfmetric(
-                self.machine['non-overlapping model']['performance counter metric'])
-            event_counters.update(event_dict)
-            cache_metrics = defaultdict(dict)
-            for i, cache_info in enumerate(self.machine['memory hierarchy']):
-                name = cache_info['level']
-                for k, v in cache_info['performance counter metrics'].items():
-                    cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(str(v))
-                    event_counters.update(event_dict)
-        except SyntaxError as e:
-            print('Disabled Phenomenological ECM, due to syntax error in machine file '
-                    'metrics:', e, file=sys.stderr)
-            self.no_phenoecm = True
+        if not self.no_phenoecm:
+            try:
+                # Build events and sympy expressions for all model metrics
+                T_OL, event_counters = self.machine.parse_perfmetric(
+                    self.machine['overlapping model']['performance counter metric'])
+                T_data, event_dict = self.machine.parse_perfmetric(
+                    self.machine['non-overlapping model']['performance counter metric'])
+                event_counters.update(event_dict)
+                cache_metrics = defaultdict(dict)
+                for i, cache_info in enumerate(self.machine['memory hierarchy']):
+                    name = cache_info['level']
+                    for k, v in cache_info.get('performance counter metrics', {}).items():
+                        cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(str(v))
+                        event_counters.update(event_dict)
+                # Check that all metrics needed below are defined
+                for name, metric_names in [('L1', ['loads', 'stores']),
+                                           ('L2', ['loads', 'stores']),
+                                           ('L3', ['loads', 'stores', 'misses', 'evicts']),
+                                           ('MEM', ['loads', 'stores'])]:
+                    for k in metric_names:
+                        if k not in cache_metrics[name]:
+                            raise SyntaxError("{} of {} not defined".format(k, name))
+            except SyntaxError as e:
+                print('Disabled Phenomenological ECM, due to syntax error in machine file '
+                      'metrics:', e, file=sys.stderr)
+                self.no_phenoecm = True
 
         # Gather remaining counters
         if self.no_phenoecm:
-- 
2.43.0


From 2cd317168a7796152b9d6c87547ae5703cf5ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 45/74] fix: keep counters of one event measured in several
 runs

---
 kerncraft/models/benchmark.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 9b334fc..46b734c 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -454,7 +454,10 @@ class Benchmark(PerformanceModel):
                 ctrs = ','.join([eventstr(e) for e in run])
                 r = self.perfctr([bench_filename] + [str(repetitions)] + args, group=ctrs)
                 raw_results.append(r)
-                measured_ctrs.update(r)
+                for event, ctrs in r.items():
+                    # the same event may be measured by several runs, with different parameters
+                    if isinstance(ctrs, dict):
+                        measured_ctrs.setdefault(event, {}).update(ctrs)
             bench_lock_fp.close()
             # Match measured counters to symbols
             event_counter_results = {}
-- 
2.43.0


From bedf406c90f6f7ff4840d9df8279f4058dcbf580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 46/74] fix: select bandwidth for runs without memory transfers

---
 kerncraft/models/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 46b734c..2fc888a 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -491,8 +491,8 @@ class Benchmark(PerformanceModel):
             # Select appropriate bandwidth
             mem_bw, mem_bw_kernel = self.machine.get_bandwidth(
                 -1,  # mem
-                cache_metric_results['L3']['misses'],  # load_streams
-                cache_metric_results['L3']['evicts'],  # store_streams
+                float(cache_metric_results['L3']['misses']),  # load_streams
+                float(cache_metric_results['L3']['evicts']),  # store_streams
                 1)
 
             data_transfers = {
-- 
2.43.0


From 88983699fbf5ee246090d5e997abcb99881c230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 47/74] fix: repeat benchmarks an integer number of times until
 long enough

---
 kerncraft/models/benchmark.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 2fc888a..28dff70 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -2,8 +2,6 @@
 """Benchmark model and helper functions."""
 import os
 import subprocess
-from functools import reduce
-import operator
 import sys
 from distutils.spawn import find_executable
 import re
@@ -375,10 +373,8 @@ class Benchmark(PerformanceModel):
         # Build arguments to pass to command:
         args = [str(s) for s in list(self.kernel.constants.values())]
 
-        # Determine base runtime with 10 iterations
-        runtime = 0.0
-        time_per_repetition = 2.0 / 10.0
-        repetitions = self.iterations // 10
+        # Determine base runtime with few iterations
+        repetitions = max(self.iterations, 1)
         results = {}
 
         # TODO if cores > 1, results are for openmp run. Things might need to be changed here!
@@ -390,25 +386,22 @@ class Benchmark(PerformanceModel):
         else:
             group = valid_groups[0]
 
-        while runtime < 1.5:
-            # Interpolate to a 2.0s run
-            if time_per_repetition != 0.0:
-                repetitions = 2.0 // time_per_repetition
-            else:
-                repetitions = int(repetitions * 10)
-
+        while True:
             results = self.perfctr([bench_filename] + [str(repetitions)] + args, group=group)
             runtime = results['Runtime (RDTSC) [s]']
             time_per_repetition = runtime / float(repetitions)
+            if runtime >= 1.5:
+                break
+            # Interpolate to a 2.0s run
+            if time_per_repetition > 0.0:
+                repetitions = max(int(2.0 / time_per_repetition), repetitions + 1)
+            else:
+                repetitions = repetitions * 10
         raw_results = [results]
 
         # Base metrics for further metric computations:
         # An iteration is equal to one high-level code inner-most-loop iteration
-        iterations_per_repetition = reduce(
-            operator.mul,
-            [self.kernel.subs_consts(max_ - min_) / self.kernel.subs_consts(step)
-             for idx, min_, max_, step in self.kernel._loop_stack],
-            1)
+        iterations_per_repetition = self.kernel.iteration_length()
         iterations_per_cacheline = (float(self.machine['cacheline size']) /
                                     self.kernel.bytes_per_iteration)
         cys_per_repetition = time_per_repetition * float(self.machine['clock'])
-- 
2.43.0


From a5cad07d0a5a27970ef879876ea92fd28850924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 48/74] fix: take the bandwidth maximum over measured core
 counts

---
 kerncraft/machinemodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index feb2122..6aa2934 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -492,7 +492,9 @@ class MachineModel(object):
             # Choose maximum number of cores to get bandwidth for
             max_cores = min(self['memory hierarchy'][cache_level]['cores per group'],
                             self['cores per NUMA domain'])
-            bw = max(bw_measurements['results'][measurement_kernel][:max_cores])
+            bw = max([result for n, result in zip(bw_measurements['cores'],
+                                                  bw_measurements['results'][measurement_kernel])
+                      if n <= max_cores])
 
         # Correct bandwidth due to miss-measurement of write allocation
         # TODO support non-temporal stores and non-write-allocate architectures
-- 
2.43.0


From 3acc19fccc85744cc3fc3d68392afeed83145777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 49/74] fix: refuse unknown duplexities with a message

---
 kerncraft/models/ecm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 663b9b6..d8dd9b7 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -126,10 +126,14 @@ class ECMData(PerformanceModel):
                     cycles = float(loads[cache_level] + stores[cache_level]) * \
                              float(elements_per_cacheline) * float(element_size) * \
                              float(self.machine['clock']) / float(bw)
-                else:  # full-duplex
+                elif duplexness == 'full-duplex':
                     cycles = max(float(loads[cache_level]), float(stores[cache_level])) * \
                              float(elements_per_cacheline) * float(element_size) * \
                              float(self.machine['clock']) / float(bw)
+                else:
+                    raise ValueError("Duplexness of memory throughput may only be 'half-duplex' "
+                                     "or 'full-duplex', found {} in {}.".format(
+                                         duplexness, cache_info['level']))
                 # add penalty cycles
 
                 if 'penalty cycles per cacheline load' in cache_info:
@@ -152,9 +156,9 @@ class ECMData(PerformanceModel):
                     cycles = max(loads[cache_level] / float(throughput),
                                  stores[cache_level] / float(throughput))
                 else:
-                    raise ValueError("Duplexness of cache throughput may only be 'half-duplex'"
+                    raise ValueError("Duplexness of cache throughput may only be 'half-duplex' "
                                      "or 'full-duplex', found {} in {}.".format(
-                        duplexness, cache_info['name']))
+                                         duplexness, cache_info['level']))
 
             self.results['cycles'].append((cache_info['level'], cycles))
             self.results['penalty'] = penalty
-- 
2.43.0


From 383144866cb7eb63710f69ab43db86dc1753bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 50/74] fix: store penalty of the ThunderX2 machine file

---
 examples/machine-files/ARMv8_ThunderX2-CN9980.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/machine-files/ARMv8_ThunderX2-CN9980.yml b/examples/machine-files/ARMv8_ThunderX2-CN9980.yml
index 4023672..ea60101 100644
--- a/examples/machine-files/ARMv8_ThunderX2-CN9980.yml
+++ b/examples/machine-files/ARMv8_ThunderX2-CN9980.yml
@@ -97,7 +97,7 @@ memory hierarchy:
   upstream throughput: [full socket memory bandwidth, half-duplex]
   transfers overlap: false
   penalty cycles per cacheline load: 2.56
-  penalty cycles per cachlinie store: 2.56
+  penalty cycles per cacheline store: 2.56
   performance counter metrics:
     loads: MEMORY_READS:MBOX0C0 + MEMORY_READS:MBOX1C0
     stores: MEMORY_WRITES:MBOX0C1 + MEMORY_WRITES:MBOX1C1
-- 
2.43.0


From f27f3a1cd309a0713ae58da07b2213d5c2b72564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 51/74] fix: quantities with integer values

---
 kerncraft/prefixedunit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index ff1fffa..5d41210 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -55,7 +55,8 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         """gives value without prefix"""
         return self.value*self.PREFIXES[self.prefix]
 
-    __float__ = base_value
+    def __float__(self):
+        return float(self.base_value())
 
     def __int__(self):
         return int(self.base_value())
-- 
2.43.0


From b98bb269d5a564804cdf8e601cf74dfee70a2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 52/74] fix: convert ECM predictions between units exactly

---
 kerncraft/models/ecm.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index d8dd9b7..739bf98 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -181,17 +181,20 @@ class ECMData(PerformanceModel):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
 
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = float(self.machine['cacheline size']) / \
+            float(self.kernel.bytes_per_iteration)
         if cy_cl != 0:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
             it_s.unit = 'It/s'
         else:
-            it_s = PrefixedUnit('inf It/S')
+            it_s = PrefixedUnit('inf It/s')
         flops_per_it = sum(self.kernel._flops.values())
-        performance = it_s*flops_per_it
+        if flops_per_it:
+            performance = it_s*flops_per_it
+        else:
+            performance = PrefixedUnit(0.0, '', 'FLOP/s')
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
@@ -356,17 +359,20 @@ class ECMCPU(PerformanceModel):
         if not isinstance(cy_cl, PrefixedUnit):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = float(self.machine['cacheline size']) / \
+            float(self.kernel.bytes_per_iteration)
         if cy_cl == 0.0:
             it_s = PrefixedUnit(float('inf'))
         else:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
         it_s.unit = 'It/s'
         flops_per_it = sum(self.kernel._flops.values())
-        performance = it_s*flops_per_it
+        if flops_per_it:
+            performance = it_s*flops_per_it
+        else:
+            performance = PrefixedUnit(0.0, '', 'FLOP/s')
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl*elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
-- 
2.43.0


From 0d60ce599624d3a3e1fe1da89e17e624effa2dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 53/74] fix: write complete ECM reports to the given file

---
 kerncraft/models/ecm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 739bf98..f7657c4 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -223,7 +223,7 @@ class ECMData(PerformanceModel):
                 level, self.conv_cy(cycles)[self._args.unit]), file=output_file)
 
         if self.results['penalty']:
-            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']))
+            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']), file=output_file)
 
         if self.verbose > 1:
             if 'memory bandwidth kernel' in self.results:
@@ -578,8 +578,8 @@ class ECM(PerformanceModel):
         """Print generated model data in human readable format."""
         report = ''
         if self.verbose > 1:
-            self._CPU.report()
-            self._data.report()
+            self._CPU.report(output_file=output_file)
+            self._data.report(output_file=output_file)
 
         model_construction = 'max({}, sum({})) cy/CL'.format(
             ', '.join(self.results['ECM Model Construction'][:-1]),
-- 
2.43.0


From 759b8cbf09ed9a50411c3c0d1f4a0dd2249a85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 54/74] fix: use the cache predictor given to ECM

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index f7657c4..c38a0eb 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -448,7 +448,7 @@ class ECM(PerformanceModel):
         self._CPU = ECMCPU(kernel, machine, args, parser, asm_block=asm_block,
                            pointer_increment=pointer_increment, verbose=verbose)
         self._data = ECMData(kernel, machine, args, parser,
-                             cache_predictor=CacheSimulationPredictor, cores=cores, verbose=verbose)
+                             cache_predictor=cache_predictor, cores=cores, verbose=verbose)
 
     def analyze(self):
         """Run complete analysis."""
-- 
2.43.0


From 27dc5e005ae39abf840786826f152e9626cffeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 55/74] fix: report saturation where the memory bound is
 reached exactly

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index c38a0eb..a3398db 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -518,7 +518,7 @@ class ECM(PerformanceModel):
             utilization = [0]
             self.results['scaling cores'] = float('inf')
             for c in range(1, cores_per_numa_domain + 1):
-                if c * T_MEM > (T_ECM + utilization[c - 1] * (c - 1) * T_MEM / 2):
+                if c * T_MEM >= (T_ECM + utilization[c - 1] * (c - 1) * T_MEM / 2):
                     utilization.append(1.0)
                     self.results['scaling cores'] = min(self.results['scaling cores'], c)
                 else:
-- 
2.43.0


From 8582cb87dd27abadc63018b4c0de70da2ab8df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 56/74] fix: roofline uses the peak of the kernel's precision
 (datatype is a tuple)

---
 kerncraft/models/roofline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 91ab6a9..e9db5c0 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -158,7 +158,7 @@ class RooflineFLOP(PerformanceModel):
 
     def analyze(self):
         """Run analysis."""
-        precision = 'DP' if self.kernel.datatype == 'double' else 'SP'
+        precision = 'DP' if 'double' in self.kernel.datatype else 'SP'
         self.calculate_cache_access()
 
         self.results['max_perf'] = self.conv_perf(self.machine['clock'] * self.cores * \
-- 
2.43.0


From 05201e66dcca6a83488eab4c0ddded3eda02058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 57/74] fix: roofline counts iterations, not elements, per
 cache line (unrolled steps)

---
 kerncraft/models/roofline.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index e9db5c0..583d6f5 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -68,7 +68,7 @@ class RooflineFLOP(PerformanceModel):
         cacheline_size = float(self.machine['cacheline size'])
         elements_per_cacheline = int(cacheline_size // element_size)
 
-        total_flops = sum(self.kernel._flops.values())*elements_per_cacheline
+        iterations_per_cacheline = cacheline_size / float(self.kernel.bytes_per_iteration)
 
         # TODO let user choose threads_per_core:
         threads_per_core = 1
@@ -140,7 +140,7 @@ class RooflineFLOP(PerformanceModel):
                 arith_intens = float('inf')
                 it_s = PrefixedUnit(float('inf'), 'It/s')
             else:
-                arith_intens = 1/(bytes_transfered/elements_per_cacheline)
+                arith_intens = 1/(bytes_transfered/iterations_per_cacheline)
                 it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
 
             self.results['mem bottlenecks'].append({
@@ -170,9 +170,9 @@ class RooflineFLOP(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(float(self.machine['cacheline size'])) / element_size
-        cy_cl = clock/it_s*elements_per_cacheline
+        iterations_per_cacheline = float(self.machine['cacheline size']) / \
+            float(self.kernel.bytes_per_iteration)
+        cy_cl = clock/it_s*iterations_per_cacheline
         cy_cl.unit = 'cy/CL'
         cy_it = clock/it_s
         cy_it.unit = 'cy/It'
@@ -311,7 +311,7 @@ class RooflineASM(RooflineFLOP):
         if uops is not None:
             uops = uops*block_to_cl_ratio
         cl_throughput = block_throughput*block_to_cl_ratio
-        flops_per_element = sum(self.kernel._flops.values())
+        iterations_per_block = block_size / float(self.kernel.bytes_per_iteration)
 
         # Overwrite CPU-L1 stats, because they are covered by In-Core Model
         self.results['mem bottlenecks'][0] = None
@@ -334,7 +334,7 @@ class RooflineASM(RooflineFLOP):
                 'cl throughput': cl_throughput,
                 'uops': uops,
                 'performance throughput': self.conv_perf(PrefixedUnit(
-                    self.machine['clock']/block_throughput*elements_per_block
+                    self.machine['clock']/block_throughput*iterations_per_block
                     * self.cores, "It/s")),
                 'in-core model output': incore_output}})
 
-- 
2.43.0


From 2e9fdcac82aeba9c56674a000ed1c728a9999a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 58/74] fix: roofline CPU peak is converted once, CPU bound
 honours the unit, and unlimited bounds (no array accesses, no FLOPs, no
 in-core time) are handled

---
 kerncraft/models/roofline.py | 50 ++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 583d6f5..05a68d7 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -77,12 +77,13 @@ class RooflineFLOP(PerformanceModel):
 
         # CPU-L1 stats (in bytes!)
         # We compile CPU-L1 stats on our own, because cacheprediction only works on cache lines
-        read_offsets, write_offsets = zip(*list(self.kernel.compile_global_offsets(
-            iteration=range(0, elements_per_cacheline))))
-        read_offsets = set([item for sublist in read_offsets if sublist is not None
-                            for item in sublist])
-        write_offsets = set([item for sublist in write_offsets if sublist is not None
-                             for item in sublist])
+        # (there are no offsets at all, if only scalars are accessed)
+        offsets = list(self.kernel.compile_global_offsets(
+            iteration=range(0, elements_per_cacheline)))
+        read_offsets = set([item for reads, _ in offsets if reads is not None
+                            for item in reads])
+        write_offsets = set([item for _, writes in offsets if writes is not None
+                             for item in writes])
 
         write_streams = len(write_offsets)
         read_streams = len(read_offsets) + write_streams  # write-allocate
@@ -99,8 +100,8 @@ class RooflineFLOP(PerformanceModel):
         # arithmetic intensity = Iterations / bytes loaded
         if total_loads == 0:
             # This happens in case of full-caching
-            arith_intens = None
-            it_s = None
+            arith_intens = float('inf')
+            it_s = PrefixedUnit(float('inf'), 'It/s')
         else:
             arith_intens = 1.0/(total_loads/elements_per_cacheline)
             it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
@@ -161,14 +162,23 @@ class RooflineFLOP(PerformanceModel):
         precision = 'DP' if 'double' in self.kernel.datatype else 'SP'
         self.calculate_cache_access()
 
-        self.results['max_perf'] = self.conv_perf(self.machine['clock'] * self.cores * \
-            self.machine['FLOPs per cycle'][precision]['total'])
+        flops_per_it = sum(self.kernel._flops.values())
+        if flops_per_it:
+            max_it_s = PrefixedUnit(
+                float(self.machine['clock']) * self.cores *
+                self.machine['FLOPs per cycle'][precision]['total'] / flops_per_it, 'It/s')
+        else:
+            max_it_s = PrefixedUnit(float('inf'), 'It/s')
+        self.results['max_perf'] = self.conv_perf(max_it_s)
 
     def conv_perf(self, it_s):
         """Convert performance (It/s) to other units, such as FLOP/s or cy/CL."""
         clock = self.machine['clock']
         flops_per_it = sum(self.kernel._flops.values())
-        performance = it_s*flops_per_it
+        if flops_per_it:
+            performance = it_s*flops_per_it
+        else:
+            performance = PrefixedUnit(0.0, '', 'FLOP/s')
         performance.unit = 'FLOP/s'
         iterations_per_cacheline = float(self.machine['cacheline size']) / \
             float(self.kernel.bytes_per_iteration)
@@ -206,9 +216,10 @@ class RooflineFLOP(PerformanceModel):
                       file=output_file)
             print('', file=output_file)
 
-        if self.results['min performance']['FLOP/s'] > max_perf['FLOP/s']:
+        if self.results['min performance']['It/s'] > max_perf['It/s']:
             # CPU bound
-            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(max_perf), file=output_file)
+            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(max_perf[self._args.unit]),
+                  file=output_file)
         else:
             # Cache or mem bound
             print('Cache or mem bound.', file=output_file)
@@ -327,15 +338,19 @@ class RooflineASM(RooflineFLOP):
                 self.results['bottleneck level'] = level
                 self.results['min performance'] = bottleneck['performance']
 
+        if block_throughput:
+            cpu_it_s = PrefixedUnit(
+                self.machine['clock']/block_throughput*iterations_per_block*self.cores, 'It/s')
+        else:
+            cpu_it_s = PrefixedUnit(float('inf'), 'It/s')
+
         # Create result dictionary
         self.results.update({
             'cpu bottleneck': {
                 'port cycles': port_cycles,
                 'cl throughput': cl_throughput,
                 'uops': uops,
-                'performance throughput': self.conv_perf(PrefixedUnit(
-                    self.machine['clock']/block_throughput*iterations_per_block
-                    * self.cores, "It/s")),
+                'performance throughput': self.conv_perf(cpu_it_s),
                 'in-core model output': incore_output}})
 
     def report(self, output_file=sys.stdout):
@@ -370,7 +385,8 @@ class RooflineASM(RooflineFLOP):
                  if k not in['in-core model output']}),
                 file=output_file)
 
-        if self.results['min performance']['It/s'] > cpu_perf['It/s']:
+        if self.results['bottleneck level'] is None or \
+                self.results['min performance']['It/s'] > cpu_perf['It/s']:
             # CPU bound
             print('CPU bound. {!s} due to CPU bottleneck'.format(cpu_perf[self._args.unit]),
                   file=output_file)
-- 
2.43.0


From ac5d8848d1c24566dc72127367616c2718e26921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 59/74] fix: intermediate files only get their final name once
 complete

---
 kerncraft/cacheprediction.py |  10 +--
 kerncraft/kernel.py          | 130 +++++++++++++++++++++--------------
 2 files changed, 85 insertions(+), 55 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index f94703b..1b47f7b 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -273,7 +273,8 @@ class LayerConditionPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.build_symbolic_LCs()
-                compress_pickle.dump(self.results, file_path)
+                with kernel.replace_when_complete(file_path) as temp_path:
+                    compress_pickle.dump(self.results, temp_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
@@ -529,9 +530,10 @@ class CacheSimulationPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.simulate()
-                compress_pickle.dump(
-                    {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
-                    file_path)
+                with kernel.replace_when_complete(file_path) as temp_path:
+                    compress_pickle.dump(
+                        {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
+                        temp_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index ff3a304..f5c6d3d 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -868,6 +868,27 @@ class KernelCode(Kernel):
                   "THIS MAY BREAK IN SHARED USE!",
                   file=sys.stderr)
 
+    @staticmethod
+    @contextmanager
+    def replace_when_complete(file_path):
+        """
+        Yield path of a temporary file, which becomes *file_path* once it is complete.
+
+        Freshness is only judged by existence and modification time, thus incomplete content (of
+        interrupted or failed runs) must never be found under *file_path*.
+
+        Exclusive lock on *file_path* needs to be held.
+        """
+        temp_path = os.path.join(os.path.dirname(file_path),
+                                 'incomplete.' + os.path.basename(file_path))
+        try:
+            yield temp_path
+            os.replace(temp_path, file_path)
+        except BaseException:
+            if os.path.exists(temp_path):
+                os.unlink(temp_path)
+            raise
+
     def _strip_comments(self, code):
         clean_code = []
         for l in code.split('\n'):
@@ -1422,8 +1443,9 @@ class KernelCode(Kernel):
             func_decl = self._build_kernel_function_declaration(name=name)
             code = CGenerator().visit(
                 c_ast.FileAST(ext=[func_decl]))
-            with open(file_path, 'w') as f:
-                f.write(code)
+            with self.replace_when_complete(file_path) as temp_path:
+                with open(temp_path, 'w') as f:
+                    f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return file_name, lock_fp
@@ -1494,8 +1516,9 @@ class KernelCode(Kernel):
                 code = '#include "kerncraft.h"\n\n' + code
 
             # Store to file
-            with open(file_path, 'w') as f:
-                f.write(code)
+            with self.replace_when_complete(file_path) as temp_path:
+                with open(temp_path, 'w') as f:
+                    f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return file_path, lock_fp
@@ -1614,8 +1637,9 @@ class KernelCode(Kernel):
                    '\n\n' + code
 
             # Store to file
-            with open(file_path, 'w') as f:
-                f.write(code)
+            with self.replace_when_complete(file_path) as temp_path:
+                with open(temp_path, 'w') as f:
+                    f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return file_path, lock_fp
@@ -1642,14 +1666,15 @@ class KernelCode(Kernel):
             # Compile to object file
             compiler_args.append('-c')
 
-            cmd = [compiler] + [in_filename] + compiler_args + ['-o', out_filename]
+            try:
+                with self.replace_when_complete(out_filename) as temp_filename:
+                    cmd = [compiler] + [in_filename] + compiler_args + ['-o', temp_filename]
 
-            if verbose:
-                print('Executing (assemble_to_object): ', ' '.join(cmd))
+                    if verbose:
+                        print('Executing (assemble_to_object): ', ' '.join(cmd))
 
-            try:
-                # Assemble all to a binary
-                subprocess.check_output(cmd)
+                    # Assemble all to a binary
+                    subprocess.check_output(cmd)
                 self.release_exclusive_lock(lock_fp)  # degrade to shared lock
             except subprocess.CalledProcessError as e:
                 print("Assembly failed:", e, file=sys.stderr)
@@ -1686,37 +1711,37 @@ class KernelCode(Kernel):
 
             header_filename, header_lock_fp = self.get_kernel_header()
             in_filename, in_lock_fp = self.get_kernel_code(openmp=openmp)
-            cmd = ([compiler] +
-                   [in_filename,
-                    '-c',
-                    '-I'+reduce_path(os.path.abspath(os.path.dirname(
-                        os.path.realpath(__file__)))+'/headers/'),
-                    '-o', out_filename] +
-                   compiler_args)
-
-            if verbose:
-                print('Executing (compile_kernel): ', ' '.join(cmd))
-
             try:
-                subprocess.check_output(cmd)
-                in_lock_fp.close()
-                header_lock_fp.close()
-
+                with self.replace_when_complete(out_filename) as temp_filename:
+                    cmd = ([compiler] +
+                           [in_filename,
+                            '-c',
+                            '-I'+reduce_path(os.path.abspath(os.path.dirname(
+                                os.path.realpath(__file__)))+'/headers/'),
+                            '-o', temp_filename] +
+                           compiler_args)
+
+                    if verbose:
+                        print('Executing (compile_kernel): ', ' '.join(cmd))
+
+                    subprocess.check_output(cmd)
+                    in_lock_fp.close()
+                    header_lock_fp.close()
+
+                    # FIXME TODO FIXME TODO FIXME TODO
+                    # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512,
+                    # which are invalid and should be kmovb):
+                    if compiler == 'icc' and assembly:
+                        with open(temp_filename, 'r+') as f:
+                            assembly = f.read()
+                            f.seek(0)
+                            f.write(assembly.replace('vkmovb', 'kmovb'))
+                            f.truncate()
+                    # FIXME TODO FIXME TODO FIXME TODO
             except subprocess.CalledProcessError as e:
                 print("Compilation failed:", e, file=sys.stderr)
                 sys.exit(1)
 
-            # FIXME TODO FIXME TODO FIXME TODO
-            # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512, which 
-            # are invalid and should be kmovb):
-            if compiler == 'icc' and assembly:
-                with open(out_filename, 'r+') as f:
-                    assembly = f.read()
-                    f.seek(0)
-                    f.write(assembly.replace('vkmovb', 'kmovb'))
-                    f.truncate()
-            # FIXME TODO FIXME TODO FIXME TODO
-
             self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
 
         return out_filename, out_lock_fp
@@ -1768,12 +1793,13 @@ class KernelCode(Kernel):
         else:  # analysis_lock_mode == fcntl.LOCK_EX
             # marked assembly needs update
             asm_filename, asm_lock_fp = self.compile_kernel(assembly=True, verbose=verbose)
-            with open(asm_filename, 'r') as in_file, open(marked_filename, 'w') as out_file:
-                asm_block, self.pointer_increment = incore_model.asm_instrumentation(
-                    in_file, out_file,
-                    block_selection=asm_block,
-                    pointer_increment=pointer_increment,
-                    isa=self._machine['isa'])
+            with self.replace_when_complete(marked_filename) as temp_filename:
+                with open(asm_filename, 'r') as in_file, open(temp_filename, 'w') as out_file:
+                    asm_block, self.pointer_increment = incore_model.asm_instrumentation(
+                        in_file, out_file,
+                        block_selection=asm_block,
+                        pointer_increment=pointer_increment,
+                        isa=self._machine['isa'])
             asm_lock_fp.close()
             self.release_exclusive_lock(marked_lock_fp)  # degrade to shared lock
 
@@ -1789,7 +1815,8 @@ class KernelCode(Kernel):
             obj_lock_fp.close()
         else:
             raise ValueError("Unknown micro-architecture model: {!r}".format(model))
-        compress_pickle.dump((analysis, self.pointer_increment), analysis_filename)
+        with self.replace_when_complete(analysis_filename) as temp_filename:
+            compress_pickle.dump((analysis, self.pointer_increment), temp_filename)
         analysis_lock_fp.close()
         marked_lock_fp.close()
         return analysis, self.pointer_increment
@@ -1842,13 +1869,14 @@ class KernelCode(Kernel):
                 os.path.realpath(__file__)))+'/headers/dummy.c'),
                        kernel_obj_filename, main_filename]
 
-            cmd = [compiler] + infiles + compiler_args + ['-o', out_filename]
-            # remove empty arguments
-            cmd = list(filter(bool, cmd))
-            if verbose:
-                print('Executing (build_executable): ', ' '.join(cmd))
             try:
-                subprocess.check_output(cmd)
+                with self.replace_when_complete(out_filename) as temp_filename:
+                    cmd = [compiler] + infiles + compiler_args + ['-o', temp_filename]
+                    # remove empty arguments
+                    cmd = list(filter(bool, cmd))
+                    if verbose:
+                        print('Executing (build_executable): ', ' '.join(cmd))
+                    subprocess.check_output(cmd)
                 main_lock_fp.close()
                 kernel_obj_lock_fp.close()
                 self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
-- 
2.43.0


From 7dc34b26d83063cd3c24c72c4bf391ee4c717140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 60/74] fix: read negative pointer increments from cached
 marked assembly

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index f5c6d3d..323813d 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1782,7 +1782,7 @@ class KernelCode(Kernel):
             # use cached maked assembly and extract asm_block and pointer_increment
             with open(marked_filename) as f:
                 marked_asm = f.read()
-            m = re.search(r'pointer_increment=([0-9]+)', marked_asm)
+            m = re.search(r'pointer_increment=(-?[0-9]+)', marked_asm)
             if m:
                 self.pointer_increment = int(m.group(1))
             else:
-- 
2.43.0


From 29a15164eb533edc96998c20aa7aa274e749b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 61/74] fix: keep in-core analyses of different blocks and
 increments apart

---
 kerncraft/kernel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 323813d..7d84c6a 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1652,8 +1652,7 @@ class KernelCode(Kernel):
         Returns tuple of filename to binary file and shared lock file pointer
         """
         # Build file name
-        file_base_name = os.path.splitext(os.path.basename(in_filename))[0]
-        out_filename = self.get_intermediate_location(file_base_name + '.o')
+        out_filename = os.path.splitext(in_filename)[0] + '.o'
         lock_mode, lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1767,7 +1766,7 @@ class KernelCode(Kernel):
         model_parameter = self._machine['in-core model'][model]
 
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
-            other_dependencies=[model, str(model_parameter)])
+            other_dependencies=[model, str(model_parameter), asm_block, pointer_increment])
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
-- 
2.43.0


From 55f8c2c8e55db196b55e83d41d4e63f9d0bee4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 62/74] fix: machines without file are modified now in UTC

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 6aa2934..dcae749 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -419,7 +419,7 @@ class MachineModel(object):
             statbuf = os.stat(self._path)
             return datetime.utcfromtimestamp(statbuf.st_mtime)
         else:
-            return datetime.now()
+            return datetime.utcnow()
 
     def get_cachesim(self, cores=1):
         """
-- 
2.43.0


From effb8835fa6d798173ea79c4dbe4b265351655a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 63/74] fix: keep generated code for different constants and
 cacheline sizes apart

---
 kerncraft/kernel.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 7d84c6a..b759987 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -802,6 +802,15 @@ class KernelCode(Kernel):
 
         return reduce_path(file_path)
 
+    def _get_code_dependencies(self):
+        """
+        Return dependencies of generated code, which do not change the kernel file.
+
+        Names of constants are arguments of kernel and executable, arrays are aligned to cachelines.
+        """
+        return ['{}_{}'.format(int(self._machine['cacheline size']),
+                               '_'.join([str(c) for c in self.constants]))]
+
     def _check_freshness(self, file_path):
         """Return True, if file_path exists and file is up-to-date."""
         if os.path.exists(file_path):
@@ -1432,7 +1441,8 @@ class KernelCode(Kernel):
         """
         file_name = 'kernel.h'
         file_path = self.get_intermediate_location(
-            file_name, machine_and_compiler_dependent=False)
+            file_name, machine_and_compiler_dependent=False,
+            other_dependencies=self._get_code_dependencies())
         lock_mode, lock_fp = self.lock_intermediate(file_path)
         if lock_mode == fcntl.LOCK_SH:
             # use cache
@@ -1466,7 +1476,8 @@ class KernelCode(Kernel):
             filename += '-omp'
         filename += '.c'
         file_path = self.get_intermediate_location(
-            filename, machine_and_compiler_dependent=False)
+            filename, machine_and_compiler_dependent=False,
+            other_dependencies=self._get_code_dependencies())
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1590,7 +1601,9 @@ class KernelCode(Kernel):
         assert self.kernel_ast is not None, "AST does not exist, this could be due to running " \
                                             "based on a kernel description rather than code."
 
-        file_path = self.get_intermediate_location('main.c', machine_and_compiler_dependent=False)
+        file_path = self.get_intermediate_location(
+            'main.c', machine_and_compiler_dependent=False,
+            other_dependencies=self._get_code_dependencies())
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1697,7 +1710,8 @@ class KernelCode(Kernel):
             filename += '.s'
         else:
             filename += '.o'
-        out_filename = self.get_intermediate_location(filename)
+        out_filename = self.get_intermediate_location(
+            filename, other_dependencies=self._get_code_dependencies())
         lock_mode, out_lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1766,7 +1780,8 @@ class KernelCode(Kernel):
         model_parameter = self._machine['in-core model'][model]
 
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
-            other_dependencies=[model, str(model_parameter), asm_block, pointer_increment])
+            other_dependencies=self._get_code_dependencies() +
+                [model, str(model_parameter), asm_block, pointer_increment])
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
@@ -1775,7 +1790,7 @@ class KernelCode(Kernel):
             return analysis, self.pointer_increment
         
         marked_filename = self.get_intermediate_location('kernel-marked.s',
-            other_dependencies=[asm_block, pointer_increment])
+            other_dependencies=self._get_code_dependencies() + [asm_block, pointer_increment])
         lock_mode, marked_lock_fp = self.lock_intermediate(marked_filename)
         if lock_mode == fcntl.LOCK_SH:
             # use cached maked assembly and extract asm_block and pointer_increment
@@ -1827,7 +1842,8 @@ class KernelCode(Kernel):
         filename = 'kernel'
         if openmp:
             filename += '-omp'
-        out_filename = self.get_intermediate_location(filename)
+        out_filename = self.get_intermediate_location(
+            filename, other_dependencies=self._get_code_dependencies())
         lock_mode, out_lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
-- 
2.43.0


From 69797245341da27ab93d48a4de9e154abc09194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 64/74] fix: keep intermediates of different machine
 descriptions apart

---
 kerncraft/cacheprediction.py | 5 +++--
 kerncraft/machinemodel.py    | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 1b47f7b..0747dce 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -264,7 +264,8 @@ class LayerConditionPredictor(CachePredictor):
             # Make use of caching for symbolic LC representation:
             file_name = 'LC_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
-                file_name, machine_and_compiler_dependent=False, other_dependencies=[str(cores)])
+                file_name, machine_and_compiler_dependent=False,
+                other_dependencies=[machine.get_identifier(), str(cores)])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
@@ -518,7 +519,7 @@ class CacheSimulationPredictor(CachePredictor):
             file_name = 'CSIM_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
                 file_name, machine_and_compiler_dependent=False,
-                other_dependencies=[str(cores)]+[str(t) for t in self.kernel.constants.items()])
+                other_dependencies=[machine.get_identifier(), str(cores)]+[str(t) for t in self.kernel.constants.items()])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index dcae749..32babd7 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -407,11 +407,12 @@ class MachineModel(object):
         )
 
     def get_identifier(self):
-        """Return identifier which is either the machine file name or sha256 checksum of data."""
+        """Return identifier made of the machine file name (if any) and sha256 checksum of data."""
+        checksum = hashlib.sha256(repr(self._data).encode()).hexdigest()
         if self._path:
-            return os.path.basename(self._path)
+            return '{}_{}'.format(os.path.basename(self._path), checksum)
         else:
-            return hashlib.sha256(repr(self._data).encode()).hexdigest()
+            return checksum
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From be02bea982da0e6d47c1ea4f54bf01dfba5d7aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 65/74] fix: keep intermediates of similar compiler arguments
 apart

---
 kerncraft/kernel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index b759987..98d4c00 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -20,6 +20,7 @@ import atexit
 import re
 from contextlib import contextmanager
 import fcntl
+import hashlib
 
 from math import ceil
 
@@ -787,7 +788,10 @@ class KernelCode(Kernel):
 
         if machine_and_compiler_dependent:
             compiler, compiler_args = self._machine.get_compiler()
-            compiler_args = '_'.join(compiler_args).replace('/', '')
+            # (checksum, because different arguments may look the same without slashes and spaces)
+            compiler_args = '{}_{}'.format(
+                '_'.join(compiler_args).replace('/', ''),
+                hashlib.sha256(repr(compiler_args).encode()).hexdigest()[:16])
             base_name += '/{}/{}/{}/'.format(
                 self._machine.get_identifier(), compiler, compiler_args)
         
-- 
2.43.0


From 8f8d8ab71b3b9a07d1123e1b800de06206e304ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 66/74] revert "fix: store penalty of the ThunderX2 machine
 file" (files of examples stay as they are)

---
 examples/machine-files/ARMv8_ThunderX2-CN9980.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/machine-files/ARMv8_ThunderX2-CN9980.yml b/examples/machine-files/ARMv8_ThunderX2-CN9980.yml
index ea60101..4023672 100644
--- a/examples/machine-files/ARMv8_ThunderX2-CN9980.yml
+++ b/examples/machine-files/ARMv8_ThunderX2-CN9980.yml
@@ -97,7 +97,7 @@ memory hierarchy:
   upstream throughput: [full socket memory bandwidth, half-duplex]
   transfers overlap: false
   penalty cycles per cacheline load: 2.56
-  penalty cycles per cacheline store: 2.56
+  penalty cycles per cachlinie store: 2.56
   performance counter metrics:
     loads: MEMORY_READS:MBOX0C0 + MEMORY_READS:MBOX1C0
     stores: MEMORY_WRITES:MBOX0C1 + MEMORY_WRITES:MBOX1C1
-- 
2.43.0


From e125008276b0f83ea005fe31bca9135c50fd7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 67/74] fix: pointer increments are deduced from complete
 addresses and all register updates

---
 kerncraft/incore_model.py | 597 +++++++++++++++++++-------------------
 1 file changed, 302 insertions(+), 295 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 80ed27e..ab2f2d2 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -86,6 +86,54 @@ class ISA:
         """Return pointer increment."""
         raise NotImplementedError
 
+    @staticmethod
+    def deduce_pointer_increment(stores, loads, definitions):
+        """
+        Return number of bytes all moving references advance by with each execution of a block.
+
+        Stores are considered first. If none of them moves, loads are considered.
+
+        Values are described by dictionaries, mapping register names to their factors. The key None
+        holds a constant.
+
+        :param stores: list of addresses
+        :param loads: list of addresses
+        :param definitions: dict of register names and the list of values assigned to them in the
+                            block, None for an unknown value
+        :return: None if references advance differently or in an unknown way
+        """
+
+        def advance(value, active=()):
+            """Return by how much value grows with each execution, None if unknown."""
+            if value is None:
+                return None
+            total = 0
+            for register, factor in value.items():
+                register_advance = 0
+                if register is not None:
+                    register_advance = register_advances(register, active)
+                if register_advance is None:
+                    return None
+                total += factor * register_advance
+            return total
+
+        def register_advances(register, active):
+            if register in active:
+                return None
+            values = definitions.get(register, [])
+            if len(values) == 1 and values[0] is not None and values[0].get(register) == 1:
+                # increment, by something else than a constant is unknown
+                return values[0].get(None, 0) if set(values[0]) <= {register, None} else None
+            advances = set(advance(value, active + (register,)) for value in values) or {0}
+            # multiple definitions are okay, if they all advance by the same
+            return advances.pop() if len(advances) == 1 else None
+
+        for references in (stores, loads):
+            advances = set(advance(address) for address in references) - {0}
+            if advances:
+                return advances.pop() if len(advances) == 1 else None
+        return None
+
 
 class x86(ISA):
     @staticmethod
@@ -127,128 +175,131 @@ class x86(ISA):
         )
 
     @staticmethod
-    def get_pointer_increment(block):
+    def normalize_register_name(name):
+        """Return name of complete (64 bit) register."""
+        name = name.lower()
+        for pattern, full_name in [
+            (r"^[re]?([abcd])x$", "r{}x"),
+            (r"^([abcd])[lh]$", "r{}x"),
+            (r"^[re]?([sd]i|[sb]p)l?$", "r{}"),
+            (r"^(r\d+)[bwd]?$", "{}"),
+        ]:
+            m = re.match(pattern, name)
+            if m:
+                return full_name.format(m.group(1))
+        return name
+
+    @classmethod
+    def get_value(cls, operand):
+        """Return value of operand (address in case of memory), or None if unknown."""
+        if isinstance(operand, ImmediateOperand):
+            try:
+                return {None: int(operand.value)}
+            except (TypeError, ValueError):
+                return None
+        elif isinstance(operand, RegisterOperand):
+            return {cls.normalize_register_name(operand.name): 1}
+        elif isinstance(operand, MemoryOperand):
+            address = defaultdict(int)
+            if isinstance(operand.offset, IdentifierOperand):
+                address["&" + str(operand.offset.name)] += 1
+            elif operand.offset is not None:
+                address[None] += int(operand.offset.value)
+            if operand.base is not None:
+                address[cls.normalize_register_name(operand.base.name)] += 1
+            if operand.index is not None:
+                address[cls.normalize_register_name(operand.index.name)] += operand.scale
+            return dict(address)
+        return None
+
+    @classmethod
+    def get_stack_slot(cls, operand, modified_registers):
+        """Return name of stack location, None if operand is something else."""
+        if not isinstance(operand, MemoryOperand) or operand.base is None or operand.index:
+            return None
+        base = cls.normalize_register_name(operand.base.name)
+        if base not in ("rsp", "rbp") or base in modified_registers:
+            return None
+        return "{}{}".format(base, sorted(cls.get_value(operand).items(), key=str))
+
+    @classmethod
+    def get_definition(cls, line, register, modified_registers):
+        """Return value assigned to register by instruction, None if unknown."""
+        mnemonic = re.sub(r"^(inc|dec|add|sub|lea|mov|xor)[bwlq]$", r"\1", line.mnemonic)
+        if mnemonic == "inc":
+            return {register: 1, None: 1}
+        elif mnemonic == "dec":
+            return {register: 1, None: -1}
+        elif mnemonic in ["add", "sub"] and len(line.operands) == 2:
+            if isinstance(line.operands[0], MemoryOperand):
+                return None
+            source = cls.get_value(line.operands[0])
+            if source is None:
+                return None
+            value = defaultdict(int, {register: 1})
+            for name, factor in source.items():
+                value[name] += factor if mnemonic == "add" else -factor
+            return dict(value)
+        elif mnemonic == "lea":
+            return cls.get_value(line.operands[0])
+        elif mnemonic in ["mov", "movslq", "movsl"] and len(line.operands) == 2:
+            if isinstance(line.operands[0], MemoryOperand):
+                # value was put on the stack before
+                slot = cls.get_stack_slot(line.operands[0], modified_registers)
+                return {slot: 1} if slot is not None else None
+            return cls.get_value(line.operands[0])
+        elif mnemonic == "xor" and line.operands[0] == line.operands[1]:
+            return {}
+        return None
+
+    @classmethod
+    def get_pointer_increment(cls, block):
         """Return pointer increment."""
-        increments = {}
-        mem_references = []
-        stores_only = False
+        stores, loads = [], []
+        definitions = defaultdict(list)
 
-        modified_registers = []
-        for line in block:
-            # Skip non-instruction lines (e.g., comments)
-            if line.mnemonic is None:
-                continue
+        # Skip non-instruction lines (e.g., comments)
+        block_instructions = [line for line in block if line.mnemonic is not None]
 
-            # Extract destination references, ignoring var(%rip)
-            dst_mem_references = [
-                op
-                for op in line.semantic_operands["destination"]
-                if isinstance(op, MemoryOperand) and (op.base is None or op.base.name != "rip")
-            ]
-            if dst_mem_references:
-                if not stores_only:
-                    stores_only = True
-                    mem_references = []
-                mem_references += dst_mem_references
-
-            # If no destination references were found sofar, include source references
-            if not stores_only:
-                mem_references += [
-                    op for op in line.semantic_operands["source"] if isinstance(op, MemoryOperand)
-                ]
-            if re.match(r"^inc[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
-                increments[reg] = 1
-            elif (
-                re.match(r"^add[bwlq]?$", line.mnemonic)
-                and isinstance(line.operands[0], ImmediateOperand)
-                and isinstance(line.operands[1], RegisterOperand)
-            ):
-                reg = line.operands[1].name
-                increments[reg] = int(line.operands[0].value)
-                modified_registers.append(reg)
-            elif re.match(r"^dec[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
-                increments[reg] = -1
-            elif (
-                re.match(r"^sub[bwlq]?$", line.mnemonic)
-                and isinstance(line.operands[0], ImmediateOperand)
-                and isinstance(line.operands[1], RegisterOperand)
-            ):
-                reg = line.operands[1].name
-                modified_registers.append(reg)
-                increments[reg] = -int(line.operands[0].value)
-            elif re.match(r"^lea[bwlq]?$", line.mnemonic):
-                # `lea 1(%r11), %r11` is the same as `add $1, %r11`
-                if (
-                    line.operands[0].base is not None
-                    and line.operands[0].base.name == line.operands[1].name
-                    and line.operands[0].index is None
-                ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
-                    increments[reg] = int(line.operands[0].offset.value)
-                # `lea 1(,%r11), %r11` is the same as `add $1, %r11`
-                if (
-                    line.operands[0].index is not None
-                    and line.operands[0].index.name == line.operands[1].name
-                    and line.operands[0].base is None
-                ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
-                    increments[reg] = int(line.operands[0].offset.value)
-
-        # deduce loop increment from memory index register
-        pointer_increment = None  # default -> can not decide, let user choose
-        possible_idx_regs = None
-        if mem_references:
-            # we found memory references to work with
-            possible_idx_regs = list(
-                set(increments.keys()).intersection(
-                    set(
-                        [mref.base.name for mref in mem_references if mref.base is not None]
-                        + [mref.index.name for mref in mem_references if mref.index is not None]
-                    )
-                )
+        def get_destinations(line):
+            operands = chain(
+                line.semantic_operands["destination"], line.semantic_operands["src_dst"]
             )
-            for mref in mem_references:
-                for reg in list(possible_idx_regs):
-                    # Only consider references with two registers, where one could be an
-                    # index
-                    if None not in [mref.base, mref.index]:
-                        # One needs to mach, other registers will be excluded
-                        if not (
-                            (mref.base is not None and reg == mref.base.name)
-                            or (mref.index is not None and reg == mref.index.name)
-                        ):
-                            # reg can not be it
-                            possible_idx_regs.remove(reg)
-
-            idx_reg = None
-            if len(possible_idx_regs) == 1:
-                # good, exactly one register was found
-                idx_reg = possible_idx_regs[0]
-            elif possible_idx_regs and itemsEqual(
-                [increments[pidxreg] for pidxreg in possible_idx_regs]
-            ):
-                # multiple were option found, but all have the same increment
-                # use first match:
-                idx_reg = possible_idx_regs[0]
-
-            if idx_reg and modified_registers.count(idx_reg) == 1:
-                mem_scales = [
-                    mref.scale
-                    for mref in mem_references
-                    if (mref.index is not None and idx_reg == mref.index.name)
-                    or (mref.base is not None and idx_reg == mref.base.name)
+            return [op for op in operands if isinstance(op, (RegisterOperand, MemoryOperand))]
+
+        modified_registers = set(
+            cls.normalize_register_name(op.name)
+            for line in block_instructions
+            for op in get_destinations(line)
+            if isinstance(op, RegisterOperand)
+        )
+
+        for line in block_instructions:
+            registers = set()
+            for op in get_destinations(line):
+                if isinstance(op, RegisterOperand):
+                    registers.add(cls.normalize_register_name(op.name))
+                else:
+                    stores.append(cls.get_value(op))
+                    slot = cls.get_stack_slot(op, modified_registers)
+                    if slot is not None:
+                        definitions[slot].append(None)
+            for register in registers:
+                definitions[register].append(
+                    cls.get_definition(line, register, modified_registers)
+                )
+            # addresses which are merely computed are not accessed
+            if not line.mnemonic.startswith("lea"):
+                loads += [
+                    cls.get_value(op)
+                    for op in line.semantic_operands["source"]
+                    if isinstance(op, MemoryOperand)
                 ]
 
-                if itemsEqual(mem_scales):
-                    # good, all scales are equal
-                    pointer_increment = mem_scales[0] * increments[idx_reg]
+        # deduce loop increment from addresses
+        pointer_increment = cls.deduce_pointer_increment(stores, loads, definitions)
 
+        # default -> can not decide, let user choose
         if pointer_increment is None:
             pointer_increment = find_increment_in_cache(block)
         return pointer_increment
@@ -293,195 +344,151 @@ class AArch64(ISA):
             prefix = "x"
         return prefix + register.name
 
-    @staticmethod
-    def get_pointer_increment(block):
-        """Return pointer increment."""
-        increments = defaultdict(int)
-        mem_references = []
-        stores_only = False
-
-        # build dict of modified registers in block with count of number of modifications
-        modified_registers = defaultdict(int)
-        for dests in [l.semantic_operands["destination"] for l in block]:
-            for d in dests:
-                if isinstance(d, RegisterOperand):
-                    # if 'range' in d.register:
-                    #    modified_registers[AArch64.normalize_to_register_str(d.register.range[0])] += 1
-                    # else:
-                    modified_registers[AArch64.normalize_to_register_str(d)] += 1
-        for l in block:
-            for d in l.operands:
-                if isinstance(d, MemoryOperand):
-                    if d.post_indexed is not False or d.pre_indexed:
-                        modified_registers[AArch64.normalize_to_register_str(d.base)] += 1
-                        inc = 1
-                        if isinstance(d.post_indexed, dict):
-                            inc = int(d.post_indexed["value"])
-                        if d.pre_indexed:
-                            inc = int(d.offset.value)
-                        increments[AArch64.normalize_to_register_str(d.base)] = inc
+    @classmethod
+    def get_address(cls, operand):
+        """Return address of memory operand (after update, if pre-indexed), or None if unknown."""
+        address = defaultdict(int)
+        # offset operands with identifiers (e.g. `:lo12:gosa`) always refer to the same address
+        if isinstance(operand.offset, IdentifierOperand):
+            return {}
+        if operand.base is not None:
+            address[cls.normalize_to_register_str(operand.base)] += 1
+        if operand.index is not None:
+            # If index is used, a scale other than 1 needs to be considered
+            scale = 1
+            if operand.index.shift:
+                scale = 2 ** int(operand.index.shift[0]["value"])
+            address[cls.normalize_to_register_str(operand.index)] += scale
+        return dict(address)
 
-        for line in block:
-            # Skip non-instruction lines (such as comments and labels)
-            if line.mnemonic is None:
-                continue
+    @classmethod
+    def get_value(cls, operand):
+        """Return value of operand, or None if unknown."""
+        if isinstance(operand, ImmediateOperand):
+            try:
+                return {None: int(operand.value)}
+            except (TypeError, ValueError):
+                return None
+        elif isinstance(operand, IdentifierOperand):
+            return {"&" + str(operand.name): 1}
+        elif isinstance(operand, RegisterOperand):
+            return {cls.normalize_to_register_str(operand): 1}
+        return None
 
-            # Extract and filter destination references (stores)
-            dst_mem_references = []
-            for dst in [
-                op
-                for op in chain(
-                    line.semantic_operands["destination"], line.semantic_operands["src_dst"]
-                )
-                if isinstance(op, MemoryOperand)
-            ]:
-                # base or index must be a modified (i.e., changing) register
-                if (
-                    AArch64.normalize_to_register_str(dst.base) not in modified_registers
-                    and AArch64.normalize_to_register_str(dst.index) not in modified_registers
-                ):
-                    continue
-
-                # offset operands with identifiers (e.g. `:lo12:gosa`) are ignored
-                if dst.offset is not None and isinstance(dst.offset, IdentifierOperand):
-                    continue
-
-                dst_mem_references.append(dst)
-            # consider only stores from here on
-            if dst_mem_references and not stores_only:
-                stores_only = True
-                mem_references = []
-            mem_references += dst_mem_references
-
-            # If no destination references were found sofar, include source references (loads)
-            if not stores_only:
-                mem_references += [
-                    op
-                    for op in chain(
-                        line.semantic_operands["source"], line.semantic_operands["src_dst"]
-                    )
-                    if isinstance(op, MemoryOperand)
-                ]
+    @classmethod
+    def get_stack_slot(cls, operand, modified_registers):
+        """Return name of stack location, None if operand is something else."""
+        if not isinstance(operand, MemoryOperand) or operand.base is None or operand.index:
+            return None
+        base = cls.normalize_to_register_str(operand.base)
+        if base != "xsp" or base in modified_registers:
+            return None
+        return "{}[{}]".format(base, getattr(operand.offset, "value", None) or 0)
 
-            # ADD dest_reg, src_reg, immd
-            if (
-                re.match(r"^add[s]?$", line.mnemonic)
-                and line.operands[0] == line.operands[1]
-                and isinstance(line.operands[2], ImmediateOperand)
-            ):
-                reg_name = AArch64.normalize_to_register_str(line.operands[0])
-                inc = int(line.operands[2].value)
-                increments[reg_name] = inc
-            # SUB dest_reg, src_reg, immd
-            elif (
-                re.match(r"^sub[s]?$", line.mnemonic)
-                and line.operands[0] == line.operands[1]
-                and isinstance(line.operands[2], ImmediateOperand)
-            ):
-                reg_name = AArch64.normalize_to_register_str(line.operands[0])
-                inc = -int(line.operands[2].value)
-                if reg_name in increments and increments[reg_name] == inc:
-                    increments[reg_name] = inc
-
-        # Remove any increments that are modiefed more than once
-        increments = {
-            reg_name: inc
-            for reg_name, inc in increments.items()
-            if modified_registers[reg_name] == 1
-        }
-
-        # Second pass to find lsl instructions on increments
-        for line in block:
-            if line.mnemonic is None:
+    @classmethod
+    def get_definition(cls, line, register, modified_registers):
+        """Return value assigned to register by instruction, None if unknown."""
+        # base registers which are updated by pre- and post-indexed addressing
+        for operand in line.operands:
+            if not isinstance(operand, MemoryOperand) or operand.base is None:
                 continue
+            if cls.normalize_to_register_str(operand.base) != register:
+                continue
+            if isinstance(operand.post_indexed, dict) and "value" in operand.post_indexed:
+                return {register: 1, None: int(operand.post_indexed["value"])}
+            elif operand.pre_indexed and isinstance(operand.offset, ImmediateOperand):
+                return {register: 1, None: int(operand.offset.value)}
+            elif operand.post_indexed or operand.pre_indexed:
+                return None
+
+        # register could be one of multiple destinations
+        if not line.operands or not isinstance(line.operands[0], RegisterOperand):
+            return None
+        if cls.normalize_to_register_str(line.operands[0]) != register:
+            return None
+
+        sources = [cls.get_value(op) for op in line.operands[1:]]
+        if line.mnemonic in ["add", "adds", "sub", "subs"] and len(sources) == 2:
+            # ADD|SUB dest_reg, src_reg, immd
+            # ADD|SUB dest_reg, src_reg, src_reg{, shift}
+            if None in sources:
+                return None
+            factor = 1 if line.mnemonic.startswith("add") else -1
+            if isinstance(line.operands[2], RegisterOperand):
+                # shift is not part of operands
+                m = re.search(
+                    r",\s*(lsl|lsr|asr|ror|[us]xt[bhwx])\s*(?:#?\s*(\d+))?\s*(?:/[/*].*|;.*)?$",
+                    line.line,
+                    re.IGNORECASE,
+                )
+                if m and m.group(1).lower() not in ["lsl", "uxtw", "sxtw", "uxtx", "sxtx"]:
+                    return None
+                elif m:
+                    factor *= 2 ** int(m.group(2) or 0)
+            value = defaultdict(int, sources[0])
+            for name, source_factor in sources[1].items():
+                value[name] += factor * source_factor
+            return dict(value)
+        elif line.mnemonic == "lsl" and len(sources) == 2:
             # LSL dest_reg, src_reg, immd
-            if (
-                re.match(r"^lsl$", line.mnemonic)
-                and isinstance(line.operands[2], ImmediateOperand)
-                and AArch64.normalize_to_register_str(line.operands[1]) in increments
+            if isinstance(line.operands[2], ImmediateOperand) and None not in sources:
+                return {n: f * 2 ** sources[1][None] for n, f in sources[0].items()}
+        elif line.mnemonic in ["mov", "adr", "adrp"] and len(sources) == 1:
+            return sources[0]
+        elif line.mnemonic in ["ldr", "ldur"] and len(sources) == 1:
+            # value was put on the stack before
+            slot = cls.get_stack_slot(line.operands[1], modified_registers)
+            if slot is not None:
+                return {slot: 1}
+        return None
+
+    @classmethod
+    def get_pointer_increment(cls, block):
+        """Return pointer increment."""
+        stores, loads = [], []
+        definitions = defaultdict(list)
+
+        # Skip non-instruction lines (such as comments and labels)
+        block_instructions = [line for line in block if line.mnemonic is not None]
+
+        def get_modified_registers(line):
+            registers = set()
+            for operand in chain(
+                line.semantic_operands["destination"], line.semantic_operands["src_dst"]
             ):
-                increments[AArch64.normalize_to_register_str(line.operands[0])] = increments[
-                    AArch64.normalize_to_register_str(line.operands[1])
-                ] * 2 ** int(line.operands[2].value)
+                if isinstance(operand, RegisterOperand):
+                    registers.add(cls.normalize_to_register_str(operand))
+            for operand in line.operands:
+                if isinstance(operand, MemoryOperand) and operand.base is not None:
+                    if operand.post_indexed or operand.pre_indexed:
+                        registers.add(cls.normalize_to_register_str(operand.base))
+            return registers
+
+        modified_registers = set(
+            chain.from_iterable(get_modified_registers(line) for line in block_instructions)
+        )
 
-        new_increments = []
-        # Third pass to find registers based on constant +- increment
-        for line in block:
-            if line.mnemonic is None:
-                continue
-            # ADD|SUB dest_reg, const_reg, increment_reg (source registers may be switched)
-            m = re.match(r"^(add|sub)[s]?$", line.mnemonic)
-            if m:
-                if m.group(1) == "add":
-                    factor = 1
-                else:
-                    factor = -1
-                if not isinstance(line.operands[1], RegisterOperand) or not isinstance(
-                    line.operands[2], RegisterOperand
-                ):
-                    continue
-                for i, j in [(1, 2), (2, 1)]:
-                    reg_i_name = AArch64.normalize_to_register_str(line.operands[i])
-                    reg_j_name = AArch64.normalize_to_register_str(line.operands[j])
-                    if reg_i_name in increments and reg_j_name not in modified_registers:
-                        reg_dest_name = AArch64.normalize_to_register_str(line.operands[0])
-                        inc = factor * increments[reg_i_name]
-                        if reg_dest_name in increments and increments[reg_dest_name] == inc:
-                            modified_registers[reg_dest_name] -= 1
-                        increments[reg_dest_name] = inc
-                        new_increments.append(reg_dest_name)
-
-        # Remove any increments that are modified more often than updates have been detected
-        increments = {
-            reg_name: inc
-            for reg_name, inc in increments.items()
-            if modified_registers[reg_name] == 1
-        }
-
-        # Last pass to find lsl instructions on increments
-        for line in block:
-            if line.mnemonic is None:
-                continue
-            # LSL dest_reg, src_reg, immd
-            if (
-                re.match(r"^lsl$", line.mnemonic)
-                and isinstance(line.operands[2], ImmediateOperand)
-                and isinstance(line.operands[1], RegisterOperand)
+        for line in block_instructions:
+            for register in get_modified_registers(line):
+                definitions[register].append(
+                    cls.get_definition(line, register, modified_registers)
+                )
+            for operand in chain(
+                line.semantic_operands["destination"], line.semantic_operands["src_dst"]
             ):
-                src_reg_name = AArch64.normalize_to_register_str(line.operands[1])
-                if src_reg_name in new_increments and src_reg_name in increments:
-                    increments[AArch64.normalize_to_register_str(line.operands[0])] = increments[
-                        src_reg_name
-                    ] * 2 ** int(line.operands[2].value)
-
-        # deduce loop increment from memory index register
-        address_registers = []
-        scales = defaultdict(lambda: 1)
-        for mref in mem_references:
-            # Assume base to be scaled
-            base_reg = AArch64.normalize_to_register_str(mref.base)
-            if mref.index is not None:
-                # If index register is used, check which is incremented
-                index_reg = AArch64.normalize_to_register_str(mref.index)
-                if index_reg in increments:
-                    reg = index_reg
-                    # If index is used, a scale other than 1 needs to be considered
-                    if mref.index.shift:
-                        scales[reg] = 2 ** int(mref.index.shift[0]["value"])
-                else:
-                    reg = base_reg
-            else:
-                reg = base_reg
-            # ignore all unmodiefed registers
-            if reg in modified_registers:
-                address_registers.append(reg)
-            increment = None
+                if isinstance(operand, MemoryOperand):
+                    stores.append(cls.get_address(operand))
+                    slot = cls.get_stack_slot(operand, modified_registers)
+                    if slot is not None:
+                        definitions[slot].append(None)
+            for operand in chain(
+                line.semantic_operands["source"], line.semantic_operands["src_dst"]
+            ):
+                if isinstance(operand, MemoryOperand):
+                    loads.append(cls.get_address(operand))
 
-        pointer_increment = None  # default -> can not decide, let user choose
-        if address_registers and all([reg in increments for reg in address_registers]):
-            if itemsEqual([increments[reg] for reg in address_registers]):
-                # good, all relevant increments are equal
-                pointer_increment = increments[address_registers[0]] * scales[address_registers[0]]
+        # deduce loop increment from addresses
+        pointer_increment = cls.deduce_pointer_increment(stores, loads, definitions)
 
         # Check cache as last resort
         if pointer_increment is None:
-- 
2.43.0


From e37aa649bc869f33771eb839ee6f635d25d82327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 68/74] fix: select assembly blocks by number

---
 kerncraft/incore_model.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index ab2f2d2..2c4e91d 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -638,9 +638,9 @@ def asm_instrumentation(
 
     :param input_file: file-like object to read from
     :param output_file: file-like object to write to
-    :param block_selection: label of the assembly block to instrument, or 'auto' for automatically
-                            using block with the
-                            most vector instructions, or 'manual' to read index to prompt user
+    :param block_selection: number of the assembly block to instrument (counted from 0), or 'auto'
+                            for automatically using block with the most vector instructions, or
+                            'manual' to prompt user for its label
     :param pointer_increment: number of bytes the pointer is incremented after the loop or
                               - 'auto': automatic detection, otherwise RuntimeError is raised
                               - 'auto_with_manual_fallback': like auto with fallback to manual input
@@ -667,7 +667,14 @@ def asm_instrumentation(
             loop_blocks, default=ISA.get_isa(isa).select_best_block(loop_blocks), debug=debug
         )
     elif isinstance(block_selection, int):
-        block_label = block_selection
+        if not 0 <= block_selection < len(loop_blocks):
+            raise ValueError(
+                "There is no block number {}. Blocks found: {}".format(
+                    block_selection,
+                    ", ".join("{} ({})".format(i, l) for i, l in enumerate(loop_blocks)),
+                )
+            )
+        block_label = list(loop_blocks)[block_selection]
     else:
         raise ValueError("block_selection has to be an integer, 'auto' or 'manual' ")
     block_lines = loop_blocks[block_label]
-- 
2.43.0


From a0b34a66b184ae67e18427e2a86d440360b9cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 69/74] fix: later pointer increments in the cache supersede
 earlier ones

---
 kerncraft/incore_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 2c4e91d..c616218 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -556,6 +556,7 @@ def find_increment_in_cache(block, cache_file="~/.kerncraft/increment_cache"):
     search_hash = hashblock(block)
     cache_file = expanduser(cache_file)
     cache = ""
+    found_increment = None
     if os.path.exists(cache_file):
         with open(cache_file) as f:
             cache = f.readlines()
@@ -566,11 +567,12 @@ def find_increment_in_cache(block, cache_file="~/.kerncraft/increment_cache"):
         hashstr, increment = c_split[:2]
         try:
             increment = int(increment)
-        except:
-            increment = None
+        except ValueError:
+            continue
+        # entries are appended, thus later ones supersede earlier ones
         if hashstr == search_hash:
-            return increment
-    return None
+            found_increment = increment
+    return found_increment
 
 
 def store_increment_to_cache(
-- 
2.43.0


From abf948a8fa16fd5092d8ac76f82d78c309a015f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 70/74] fix: keep the input of an assembly file which can not
 be instrumented in place

---
 kerncraft/incore_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index c616218..6ad6fb4 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -653,11 +653,6 @@ def asm_instrumentation(
     code = input_file.read()
     asm_lines = parse_asm(code, isa, "csx" if isa == "x86" else "a64fx")
 
-    # If input and output files are the same, overwrite with output
-    if input_file is output_file:
-        output_file.seek(0)
-        output_file.truncate()
-
     if debug:
         block_selection = "manual"
 
@@ -690,7 +685,7 @@ def asm_instrumentation(
         if pointer_increment == "auto":
             pointer_increment = ISA.get_isa(isa).get_pointer_increment(block_lines)
             if pointer_increment is None:
-                if output_file is not None:
+                if output_file is not None and input_file is not output_file:
                     os.unlink(output_file.name)
                 raise RuntimeError(
                     "pointer_increment could not be detected automatically. Use "
@@ -737,6 +732,11 @@ def asm_instrumentation(
         + asm_lines[block_end:]
     )
 
+    # If input and output files are the same, overwrite with output
+    if input_file is output_file:
+        output_file.seek(0)
+        output_file.truncate()
+
     if output_file is not None:
         output_file.writelines([l.line + "\n" for l in marked_asm])
 
-- 
2.43.0


From cf0f2be395c84dcf995cb626975973100072ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 71/74] fix: analyse marked section with LLVM-MCA

---
 kerncraft/incore_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 6ad6fb4..b71aeb0 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -828,8 +828,14 @@ def llvm_mca_analyse_instrumented_assembly(
     """
     result = {}
     with open(instrumented_assembly_file) as f:
-        parsed_code = parse_asm(f.read(), isa, micro_architecture)
-    kernel = osaca.reduce_to_section(parsed_code, isa)
+        code = f.read()
+    # Markers are only recognized in code which was not normalized
+    osaca_version_tuple = tuple(map(int, (osaca.get_version().split("."))))
+    if osaca_version_tuple >= (0,7,0):
+        asm_parser = get_parser(isa, syntax=detect_x86_syntax(code) if isa == "x86" else None)
+        kernel = osaca.reduce_to_section(asm_parser.parse_file(code), asm_parser)
+    else:
+        kernel = osaca.reduce_to_section(get_parser(isa).parse_file(code), isa)
     assembly_section = "\n".join([l.line for l in kernel])
 
     output = subprocess.check_output(
-- 
2.43.0


From f5f84412d3d7c06dac9ac0cd386416f2ce548564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 72/74] fix: layer condition model considers number of cores

---
 kerncraft/models/layer_condition.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kerncraft/models/layer_condition.py b/kerncraft/models/layer_condition.py
index fc89b3c..bd59df4 100755
--- a/kerncraft/models/layer_condition.py
+++ b/kerncraft/models/layer_condition.py
@@ -40,13 +40,12 @@ class LC(PerformanceModel):
         self._parser = parser
         self.results = None
 
-        if args:
-            # handle CLI info
-            pass
+        # handle CLI info
+        self.cores = args.cores if args else 1
 
     def analyze(self):
         """Run complete analysis."""
-        lcp = LayerConditionPredictor(self.kernel, self.machine, symbolic=True)
+        lcp = LayerConditionPredictor(self.kernel, self.machine, self.cores, symbolic=True)
         self.results = lcp.results
 
     def report(self, output_file=sys.stdout):
@@ -56,7 +55,7 @@ class LC(PerformanceModel):
             print()
 
         for cache, cache_results in zip(
-                self.machine.get_cachesim(self._args.cores).levels(with_mem=False),
+                self.machine.get_cachesim(self.cores).levels(with_mem=False),
                 self.results['cache']):
             print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:")
             print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"))
-- 
2.43.0


From a16b30072e519f1aad7038d4ded6ce374c74217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 73/74] fix: print layer condition report to the requested
 output

---
 kerncraft/models/layer_condition.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/kerncraft/models/layer_condition.py b/kerncraft/models/layer_condition.py
index bd59df4..bd1eaf2 100755
--- a/kerncraft/models/layer_condition.py
+++ b/kerncraft/models/layer_condition.py
@@ -51,16 +51,18 @@ class LC(PerformanceModel):
     def report(self, output_file=sys.stdout):
         """Report generated model in human readable form."""
         if self._args and self._args.verbose > 2:
-            pprint(self.results)
-            print()
+            pprint(self.results, stream=output_file)
+            print(file=output_file)
 
         for cache, cache_results in zip(
                 self.machine.get_cachesim(self.cores).levels(with_mem=False),
                 self.results['cache']):
-            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:")
-            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"))
+            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:",
+                  file=output_file)
+            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"), file=output_file)
             for lc_condition in cache_results:
                 print("    {!r:>35} {:>7} {:>5}".format(lc_condition['condition'],
                                                       lc_condition['misses'],
-                                                      lc_condition['hits']))
-            print()
+                                                      lc_condition['hits']),
+                      file=output_file)
+            print(file=output_file)
-- 
2.43.0


From 213962fe99d074038d369145329e23b3c60ca151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 74/74] fix: pass large constants to benchmark program

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 98d4c00..1cba362 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1265,7 +1265,7 @@ class KernelCode(Kernel):
             init = None
             if with_init:
                 init = c_ast.FuncCall(
-                    c_ast.ID('atoi'),
+                    c_ast.ID('atoll'),
                     c_ast.ExprList([c_ast.ArrayRef(c_ast.ID('argv'),
                                                    c_ast.Constant('int', str(i)))]))
             i += 1
-- 
2.43.0

