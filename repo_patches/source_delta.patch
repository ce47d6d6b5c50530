From 80060e3ceafee1a8f630a4cef5aed5a0b646ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 01/26] fix: keep negative numbers and modulo together in
 Equation arithmetic

Equation(-3) ** 2 was composed as the text "-3 ** 2", which is -9.
---
 NRWAL/handlers/equations.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 639215c..aead4ed 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -139,9 +139,9 @@ class Equation:
 
         arg1 = self._eqn
         arg2 = other._eqn
-        if not self.is_num(arg1) and not self.is_variable(arg1):
+        if not self._is_operand(arg1):
             arg1 = '({})'.format(arg1)
-        if not self.is_num(arg2) and not self.is_variable(arg2):
+        if not self._is_operand(arg2):
             arg2 = '({})'.format(arg2)
 
         new_eqn = '{} {} {}'.format(arg1, operator, arg2)
@@ -359,7 +359,7 @@ class Equation:
         """Check if a string is a variable name without any constants,
         operators, or arithmetic expressions"""
         flags = ('(', ')', '[', ']', '{', '}', '+', '-', '/', '*', '^', ' ',
-                 '<', '>', '=', '\\', '|', '&', '$', '@', '-')
+                 '<', '>', '=', '\\', '|', '&', '$', '@', '-', '%', '~')
         if cls.is_num(s):
             return False
         elif any(f in s for f in flags):
@@ -367,6 +367,15 @@ class Equation:
         else:
             return True
 
+    @classmethod
+    def _is_operand(cls, s):
+        """Check if a string can be used as an operand in an arithmetic
+        expression without parentheses (a positive number or a variable)"""
+        if cls.is_num(s):
+            return not s.strip().startswith('-')
+
+        return cls.is_variable(s)
+
     @property
     def full(self):
         """Get the full equation string without any pretty formatting."""
-- 
2.43.0


From f9eca593689de71b3e015f7aa871ab2d7163a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:31 +0000
Subject: [PATCH 02/26] fix: do not share default variables between Equation
 objects

replace_equation() and the constructor kept a reference to the given
dictionary, so that updating one equation changed the others.
---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index aead4ed..305c259 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -31,7 +31,7 @@ class Equation:
             Equation object. These inputs can still be overwritten at runtime.
         """
 
-        self._default_variables = default_variables
+        self._default_variables = copy.deepcopy(default_variables)
         if self._default_variables is None:
             self._default_variables = {}
 
-- 
2.43.0


From f944a0a8760566f80e40a89eca7a70e29366076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:03 +0000
Subject: [PATCH 03/26] fix: report exactly the free variables of an equation

Parts of names that look like scientific notation (co2e, x1e5), names
separated by commas or comparison operators only, keyword argument names and
variables called like dict methods (values, copy) were mis-reported, pandas
functions could not be evaluated, and a missing variable with the name of a
module global was not noticed.
---
 NRWAL/handlers/equations.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 305c259..f30d66b 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -5,6 +5,7 @@ Handler objects to interface with single NRWAL equation strings.
 import copy
 import re
 import numpy as np
+import pandas as pd  # noqa: F401 pylint: disable=unused-import
 import logging
 
 
@@ -17,6 +18,9 @@ class Equation:
     # illegal substrings that cannot be in cost equations
     ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec')
 
+    # python builtin methods that can be used in cost equations
+    BUILTINS = ('abs', 'max', 'min', 'pow', 'round', 'sum')
+
     def __init__(self, eqn, name=None, default_variables=None):
         """
         Parameters
@@ -349,10 +353,10 @@ class Equation:
         else:
             return True
 
-    @staticmethod
-    def is_method(s):
+    @classmethod
+    def is_method(cls, s):
         """Check if a string is a numpy/pandas or python builtin method"""
-        return bool(s.startswith(('np.', 'pd.')) or s in dir(__builtins__))
+        return bool(s.startswith(('np.', 'pd.')) or s in cls.BUILTINS)
 
     @classmethod
     def is_variable(cls, s):
@@ -396,19 +400,24 @@ class Equation:
     def parse_variables(cls, expression):
         """Parse variable names from an expression string."""
 
+        expression = str(expression)
+
         # finds and replaces all scientific notation numbers
-        re_num = re.compile(r'[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
-        nums = re.findall(re_num, str(expression))
-        for num in nums:
-            expression = expression.replace(num, '-1')
+        expression = re.sub(r'(?<![\w.])([0-9]+\.?[0-9]*|\.[0-9]+)'
+                            r'[eE][-+]?[0-9]+(?!\w)', '-1', expression)
+
+        # removes the names of keyword arguments in function calls
+        expression = re.sub(r'([(,]\s*)[^\W\d]\w*\s*=(?!=)', r'\1',
+                            expression)
 
-        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
+        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<',
+                      ',', '%', '=', '!', '&', '|', '~', '^', '\t', '\n')
         regex_pattern = '|'.join(map(re.escape, delimiters))
-        variables = [sub.strip(',')
-                     for sub in re.split(regex_pattern, str(expression))
-                     if sub.strip(',')
+        # single colons (slices) but not the "::" of retrieval keys
+        regex_pattern += '|(?<!:):(?!:)'
+        variables = [sub for sub in re.split(regex_pattern, expression)
+                     if sub
                      and cls.is_variable(sub)
-                     and not cls.is_num(sub.strip(','))
                      and not cls.is_method(sub)]
         variables = sorted(list(set(variables)))
         return variables
@@ -476,9 +485,7 @@ class Equation:
         kwargs = self._check_input_args(kwargs)
         kwargs = self._merge_vars(self._default_variables, kwargs)
 
-        missing = [v for v in self.variables
-                   if v not in globals()
-                   and v not in kwargs]
+        missing = [v for v in self.variables if v not in kwargs]
         if any(missing):
             msg = ('Cannot evaluate "{}", missing the following input args: {}'
                    .format(self, missing))
-- 
2.43.0


From 5d363a57b45924c5b8a2dfd29e24c6308fc255c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:24 +0000
Subject: [PATCH 04/26] fix: config expressions follow ordinary arithmetic

Chained subtractions and divisions (a - b - c, a / b / c, a * -b - c) were
grouped from the right, nested or repeated parentheses, numbers in scientific
notation, numpy calls next to or inside of parentheses or with expressions as
arguments, values from variables files and library directories were not
parsed, and the copies of the parenthesis workspace grew exponentially.
---
 NRWAL/handlers/config.py     | 125 ++++++++++++++++++++---------------
 NRWAL/utilities/utilities.py |  36 +++++++---
 2 files changed, 98 insertions(+), 63 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3c05990..3b4f068 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -9,14 +9,15 @@ import numpy as np
 import yaml
 import json
 import os
+import re
 import operator
 from collections import OrderedDict
 
 from NRWAL.utilities.utilities import NRWAL_ANALYSIS_DIR, find_np_pd_methods
 from NRWAL.handlers.equations import Equation
-from NRWAL.handlers.groups import EquationGroup
+from NRWAL.handlers.groups import EquationGroup, VariableGroup
 from NRWAL.handlers.directories import EquationDirectory
-from NRWAL.utilities.utilities import find_parens
+from NRWAL.utilities.utilities import find_parens, is_in_parens
 
 logger = logging.getLogger(__name__)
 
@@ -515,14 +516,18 @@ class NrwalConfig:
             variables input. This Equation is ready to be evaluated.
         """
 
-        if isinstance(expression, (Equation, EquationGroup)):
+        if isinstance(expression, str):
+            expression = expression.strip()
+
+        if isinstance(expression, (Equation, EquationGroup, VariableGroup,
+                                   EquationDirectory)):
             out = expression
 
         elif Equation.is_num(expression):
             # Parse number as Equation object
             out = Equation(expression, name=name)
 
-        elif Equation.is_equation(expression):
+        elif Equation.is_equation(expression) or is_in_parens(expression):
             # Special parsing logic for expression with equation operators
             out = cls._parse_equation(expression, config, eqn_dir, gvars,
                                       name=name)
@@ -545,9 +550,16 @@ class NrwalConfig:
             except KeyError:
                 out = Equation(expression)
 
+        if isinstance(out, (int, float)):
+            # Single variable from a variables.yaml file
+            out = Equation(out, name=name)
+
         if isinstance(out, Equation) and name is not None:
             out._base_name = name
             out._str = None
+
+        # the workspace of parenthetical statements is not part of the globals
+        gvars = {k: v for k, v in gvars.items() if isinstance(v, (int, float))}
         if isinstance(out, (Equation, EquationGroup)):
             out.set_default_variables(gvars)
         elif isinstance(out, EquationDirectory):
@@ -582,8 +594,6 @@ class NrwalConfig:
             NRWAL Equation object representing the input equation
         """
 
-        assert Equation.is_equation(expression)
-
         if any(c in expression for c in ('[', ']', '{', '}')):
             msg = ('Cannot parse config expression with square or curly '
                    'brackets: {}'.format(expression))
@@ -592,19 +602,23 @@ class NrwalConfig:
 
         while '(' in expression:
             start_loc, end_loc = find_np_pd_methods(expression)
-            if start_loc is None:
+            is_method = start_loc is not None
+            if not is_method:
                 start_loc, end_loc = find_parens(expression)[0]
 
             wkey = 'workspace_{}'.format(1 + len(gvars))
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
-            expression = expression.replace(pk, wkey)
-            if 'np.' not in pk and 'pd.' not in pk:
-                pk = pk.lstrip('(').rstrip(')')
-
-            gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
-                                                gvars, name=name)
+            expression = (expression[:start_loc] + wkey
+                          + expression[end_loc:])
+            if is_method:
+                gvars[wkey] = Equation(pk)
+            else:
+                gvars[wkey] = cls._parse_expression_part(pk[1:-1].strip(),
+                                                         config, eqn_dir,
+                                                         gvars)
 
+        expression = expression.strip()
         if expression in gvars:
             return gvars[expression]
 
@@ -620,48 +634,23 @@ class NrwalConfig:
         out = None
         expr = expression.replace('**', '^')
         for ops, fun in op_map.items():
-            if ops in expr:
+            if ops == '*' and expr[0] == '-':
+                # leading minus sign in front of a product, ratio or power
+                out = cls._parse_expression_part(expr[1:].strip(), config,
+                                                 eqn_dir, gvars)
+                out = Equation(-1) * out
+                break
+
+            iop = cls._find_operator(expr, ops)
+            if iop is not None:
                 # need to break look on the first found operator because
                 # subsequent operators will be found in the recursive
                 # call to _parse_expression()
-
-                expr_short = expr.replace(' ', '')
-                iop = expr_short.index(ops)
-
-                if ops == '-' and iop > 0 and expr_short[iop - 1] in op_map:
-                    # operation (e.g. * ^ /) on a minus sign (e.g. *-var)
-                    pass
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') == 1:
-                    # ignore leading minus sign (negative number)
-                    out = cls._parse_expression_part(expr[1:], config, eqn_dir,
-                                                     gvars)
-                    out = Equation(-1) * out
-                    break
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') > 1:
-                    # negative variable minus another variable - ignore first
-                    # negative when splitting string
-                    split = expr[1:].partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    v1 = '-' + v1
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
-
-                else:
-                    # normal operation on two numbers / variables
-                    split = expr.partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
+                v1, v2 = expr[:iop].strip(), expr[iop + 1:].strip()
+                out1 = cls._parse_expression_part(v1, config, eqn_dir, gvars)
+                out2 = cls._parse_expression_part(v2, config, eqn_dir, gvars)
+                out = fun(out1, out2)
+                break
 
         if out is None:
             msg = 'Failed to parse expression: {}'.format(expr)
@@ -670,6 +659,38 @@ class NrwalConfig:
 
         return out
 
+    @staticmethod
+    def _find_operator(expr, ops):
+        """Find the position at which an expression is split by an operator.
+
+        Parameters
+        ----------
+        expr : str
+            Expression without parentheses and with "^" as power operator.
+        ops : str
+            Operator to split the expression at (one of + - * / ^).
+
+        Returns
+        -------
+        iop : int | None
+            Index of the last subtraction or division (operated on from left
+            to right) or of the first of the other operators. Signs of
+            numbers and variables are not considered. None if not found.
+        """
+        iop = None
+        for i, c in enumerate(expr):
+            before = expr[:i].rstrip()
+            is_sign = c in '+-' and (
+                not before or before[-1] in '+-*/^'
+                or re.search(r'(?<![\w.])([0-9]+\.?[0-9]*|\.[0-9]+)[eE]$',
+                             expr[:i]))
+            if c == ops and not is_sign:
+                iop = i
+                if ops not in '-/':
+                    break
+
+        return iop
+
     @classmethod
     def _parse_expression_part(cls, expr_part, config, eqn_dir, gvars):
         """Parse a part of an expression that contains arithmetic ops
diff --git a/NRWAL/utilities/utilities.py b/NRWAL/utilities/utilities.py
index 229f1f3..f076507 100644
--- a/NRWAL/utilities/utilities.py
+++ b/NRWAL/utilities/utilities.py
@@ -3,7 +3,7 @@
 NRWAL utilities module.
 """
 import os
-import numpy as np
+import re
 
 
 NRWAL_DIR = os.path.dirname(os.path.dirname(os.path.dirname(
@@ -62,16 +62,30 @@ def find_np_pd_methods(s):
         Starting and ending indices of the first np. or pd. method. So if
         s="10 + np.exp(input)" then s[start:end]="np.exp(input)"
     """
-    start = 0
-    if 'np.' not in s and 'pd.' not in s:
+    method = re.search(r'(?<![\w.])(np|pd)\.[\w.]+\(', s)
+    if method is None:
         return None, None
-    elif 'np.' in s:
-        start = s.index('np.')
-    elif 'pd.' in s:
-        start = s.index('pd.')
 
-    paren_ind = find_parens(s)
-    np_paren = np.argmin([x[0] for x in paren_ind])
-    end = paren_ind[np_paren][1]
+    for paren_start, end in find_parens(s):
+        if paren_start == method.end() - 1:
+            break
 
-    return start, end
+    return method.start(), end
+
+
+def is_in_parens(s):
+    """Check if all of a string is enclosed in one pair of parentheses
+
+    Parameters
+    ----------
+    s : str
+        String possibly enclosed in parentheses like "(a + b)"
+
+    Returns
+    -------
+    check : bool
+        True if the first and last character in the string (other than
+        whitespace) are matching parentheses.
+    """
+    s = s.strip()
+    return s.startswith('(') and [0, len(s)] in find_parens(s)
-- 
2.43.0


From 143111ff68c3524ad65fa0390fdad0f74ab41591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:24 +0000
Subject: [PATCH 05/26] fix: do not modify the config dictionary of the caller

NrwalConfig(dict) removed the settings from the given dictionary and replaced
its expressions, so that the dictionary could not be used a second time.
---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3b4f068..c5d636c 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -327,6 +327,9 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
+        # do not modify the dictionary of the caller
+        config = copy.deepcopy(config)
+
         if 'equation_directory' not in config:
             msg = ('NrwalConfig using default "equation_directory": {}'
                    .format(cls.DEFAULT_DIR))
-- 
2.43.0


From a3e590bc1829ddda77b09bc173ca67cb4ac1bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:24 +0000
Subject: [PATCH 06/26] fix: rejected config inputs are not stored

Inputs of a wrong type raised an error but stayed in the inputs, so that all
later input updates failed too. Empty and 0-d arrays raised an IndexError.
---
 NRWAL/handlers/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index c5d636c..1f51dd6 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -805,6 +805,7 @@ class NrwalConfig:
             previously defined inputs.
         """
 
+        new_inputs = {}
         if arg is None:
             self._inputs = {}
 
@@ -821,12 +822,12 @@ class NrwalConfig:
                     v = arg[k].values.flatten()
 
                 if isinstance(v, np.ndarray):
-                    if Equation.is_num(v[0]):
+                    if v.size > 0 and Equation.is_num(v.flat[0]):
                         v = v.astype(np.float32)
                 elif isinstance(v, int):
                     v = float(v)
 
-                self._inputs[k] = v
+                new_inputs[k] = v
 
         else:
             msg = ('Cannot set inputs as datatype "{}". '
@@ -834,7 +835,8 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
-        Equation._check_input_args(self._inputs)
+        # only use the new inputs if all of them are valid
+        self._inputs.update(Equation._check_input_args(new_inputs))
 
     @property
     def outputs(self):
-- 
2.43.0


From 0d47dd02e0c9ff8edc060984dabc721c08efc383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:24 +0000
Subject: [PATCH 07/26] fix: evaluate the config with the current inputs

A second evaluate() returned the outputs of the first one and ignored new
inputs.
---
 NRWAL/handlers/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 1f51dd6..7f376d8 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -967,7 +967,9 @@ class NrwalConfig:
         if key is None:
             self._outputs = {}
         elif key in self._outputs:
-            del self._outputs[key]
+            # new dictionary as the previous one may have been returned
+            self._outputs = {k: v for k, v in self._outputs.items()
+                             if k != key}
 
     def keys(self):
         """Get the 1st level of config keys, same as dict.keys()"""
@@ -1013,6 +1015,9 @@ class NrwalConfig:
             logger.error(msg)
             raise RuntimeError(msg)
 
+        # outputs of previous evaluations may be from other inputs
+        self._outputs = {}
+
         i = 0
         while not self.solved:
             for k, v in self.items():
-- 
2.43.0


From 28b71dbe40b89c0c2c2cedf7cec8bfea760523ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:24 +0000
Subject: [PATCH 08/26] fix: config results do not depend on the order of the
 entries

An equation that uses another config entry in a numpy function or as a
variable of a library equation was evaluated before that entry if it came
first: this failed or silently used the default value.
---
 NRWAL/handlers/config.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 7f376d8..78ed62d 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1019,12 +1019,20 @@ class NrwalConfig:
         self._outputs = {}
 
         i = 0
+        stuck = False
         while not self.solved:
+            to_be_solved = self.to_be_solved
             for k, v in self.items():
                 if (isinstance(v, (EquationGroup, EquationDirectory))
                         or Equation.is_num(v)):
                     pass
                 elif isinstance(v, Equation):
+                    waiting = [x for x in v.variables
+                               if x in self.to_be_solved and x != k]
+                    if k in self._outputs or (any(waiting) and not stuck):
+                        # already solved or needs another equation first
+                        continue
+
                     kwargs = copy.deepcopy(self.global_variables)
                     kwargs.update(self.inputs)
                     kwargs.update(self._outputs)
@@ -1059,8 +1067,9 @@ class NrwalConfig:
                     logger.error(msg)
                     raise TypeError(msg)
 
+            stuck = self.to_be_solved == to_be_solved
             i += 1
-            if i > 100:
+            if i > 100 + len(self._config):
                 msg = ('NRWAL compute failed! The following config keys were '
                        'never solved: {}'.format(self.to_be_solved))
                 logger.error(msg)
-- 
2.43.0


From 4a4b4018c26031a063176342972f7cd9608cd517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:24 +0000
Subject: [PATCH 09/26] fix: arithmetic in retrieval keys follows ordinary
 arithmetic

Chained subtractions and divisions were grouped from the right, a key in
(several) parentheses and variables from variables files could not be used in
an expression.
---
 NRWAL/handlers/directories.py |  6 +++++-
 NRWAL/handlers/groups.py      | 31 +++++++++++++++++++++----------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 4774d09..ad4bba2 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -8,6 +8,7 @@ import logging
 
 from NRWAL.handlers.equations import Equation
 from NRWAL.handlers.groups import EquationGroup, VariableGroup
+from NRWAL.utilities.utilities import is_in_parens
 
 logger = logging.getLogger(__name__)
 
@@ -329,8 +330,11 @@ class EquationDirectory:
         if workspace is None:
             workspace = {}
 
+        if key in workspace:
+            return workspace[key]
+
         operators = ('+', '-', '*', '/', '^')
-        if any([op in key for op in operators]):
+        if any([op in key for op in operators]) or is_in_parens(key):
             return EquationGroup._getitem_math(self, key, workspace)
 
         if key not in self and Equation.is_num(key):
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 6ee945b..246dbaf 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -14,7 +14,7 @@ import operator
 from collections import OrderedDict
 
 from NRWAL.handlers.equations import Equation
-from NRWAL.utilities.utilities import find_parens
+from NRWAL.utilities.utilities import find_parens, is_in_parens
 
 logger = logging.getLogger(__name__)
 
@@ -168,28 +168,36 @@ class AbstractGroup(ABC):
             assert wkey not in workspace
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
-            pk = pk.lstrip('(').rstrip(')')
+            pk = pk[1:-1].strip()
             workspace[wkey] = obj._getitem(pk, workspace)
 
+        key = key.strip()
         if key in workspace:
             return workspace[key]
 
         for op_str, op_fun in op_map.items():
             if op_str in key:
-                split_keys = key.partition(op_str)
+                # subtraction and division operate from left to right
+                if op_str in ('-', '/'):
+                    split_keys = key.rpartition(op_str)
+                else:
+                    split_keys = key.partition(op_str)
                 k1 = split_keys[0].strip()
                 k2 = split_keys[2].strip()
 
-                out1 = workspace.get(k1, None)
-                if out1 is None:
-                    out1 = obj._getitem(k1, workspace)
+                out1 = obj._getitem(k1, workspace)
+                out2 = obj._getitem(k2, workspace)
 
-                out2 = workspace.get(k2, None)
-                if out2 is None:
-                    out2 = obj._getitem(k2, workspace)
+                # single variables from a variables.yaml file
+                if isinstance(out1, (int, float)):
+                    out1 = Equation(out1)
+                if isinstance(out2, (int, float)):
+                    out2 = Equation(out2)
 
                 return op_fun(out1, out2)
 
+        return obj._getitem(key, workspace)
+
     def _getitem(self, key, workspace):
         """Protected method for __getitem__ with additional args for
         recursive call.
@@ -219,8 +227,11 @@ class AbstractGroup(ABC):
         if workspace is None:
             workspace = {}
 
+        if key in workspace:
+            return workspace[key]
+
         operators = ('+', '-', '*', '/', '^')
-        if any(op in key for op in operators):
+        if any(op in key for op in operators) or is_in_parens(key):
             return self._getitem_math(self, key, workspace)
 
         if key not in self and Equation.is_num(key):
-- 
2.43.0


From 1fdd62202b21de6721db8bfc7878ec9a4cb8f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 10/26] fix: equations of a group are inserted for whole
 variable names only

A name that is part of another name, of a number or of a numpy function was
replaced there as well (array in array_cable, e in 1e5, exp in np.exp), and a
variable called like a nested group raised an AttributeError.
---
 NRWAL/handlers/groups.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 246dbaf..1404666 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -761,11 +761,16 @@ class EquationGroup(AbstractGroup):
             for group_key, eqn in group.items():
                 if not isinstance(eqn, Equation):
                     continue
-                for var in [v for v in eqn.variables if v in group]:
+                for var in [v for v in eqn.variables
+                            if isinstance(group.get(v), Equation)]:
+                    # split at the whole variable name only, do not replace
+                    # parts of other names or names of keyword arguments
+                    parts = re.split(r'(?<![\w.]){}(?!\w|\s*=(?!=))'
+                                     .format(re.escape(var)), eqn.full)
                     repl_str = '({})'.format(group[var].full)
-                    new_eqn = eqn.full.replace(var, repl_str)
+                    new_eqn = repl_str.join(parts)
                     group[group_key] = eqn = eqn.replace_equation(new_eqn)
-                    working = True
+                    working = working or len(parts) > 1
 
         return group
 
-- 
2.43.0


From 45a18389a33d3fcb2b42b552cc21d95d12e70bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:49 +0000
Subject: [PATCH 11/26] fix: raise KeyError for paths below an equation and for
 missing numbers

A path that continues below an equation or variable raised TypeError or
AttributeError (also from get()) and a missing folder or key that is a number,
e.g. osw::2030, was returned as an equation with that value.
---
 NRWAL/handlers/directories.py | 7 +++++--
 NRWAL/handlers/groups.py      | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index ad4bba2..d6b0c19 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -352,11 +352,14 @@ class EquationDirectory:
         eqns = self._eqns
         for ikey in keys:
             try:
+                if Equation.is_num(ikey) and ikey not in eqns:
+                    # number as part of a path is not a numerical value
+                    raise KeyError(ikey)
                 eqns = eqns[ikey]
-            except KeyError:
+            except (KeyError, TypeError):
                 msg = ('Could not retrieve equation key "{}", '
                        'could not find "{}" in last available keys: {}'
-                       .format(key, ikey, list(eqns.keys())))
+                       .format(key, ikey, list(getattr(eqns, 'keys', list)())))
                 # debug log statement to avoid unnecessary stdout
                 logger.debug(msg)
                 raise KeyError(msg)
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 1404666..7f05ec5 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -245,6 +245,13 @@ class AbstractGroup(ABC):
         keys = [str(k) for k in keys]
         out = self._group
         for eqn_key in keys:
+            if not isinstance(out, (dict, AbstractGroup)):
+                msg = ('Could not retrieve equation key "{}", '
+                       'could not find "{}" in: {}'
+                       .format(key, eqn_key, out))
+                logger.error(msg)
+                raise KeyError(msg)
+
             nn_eqns, nn_values, eqn_value = \
                 self._get_nn_eqns_values(eqn_key, keys, out)
 
-- 
2.43.0


From 78a4a73f04e5fb28547d766d2423616b3279fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:12 +0000
Subject: [PATCH 12/26] fix: default variables come from the nearest enclosing
 variables file

Variables of a directory leaked into the sibling directories loaded after it and
into the dictionary passed to set_default_variables, and a forced update did not
reach variables files more than one level down. osw_2023/pslt.yaml relied on the
leak of port_cost from osw_2019, so it gets a variables file of its own.
---
 NRWAL/analysis_library/osw_2023/variables.yaml | 1 +
 NRWAL/handlers/directories.py                  | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)
 create mode 100644 NRWAL/analysis_library/osw_2023/variables.yaml

diff --git a/NRWAL/analysis_library/osw_2023/variables.yaml b/NRWAL/analysis_library/osw_2023/variables.yaml
new file mode 100644
index 0000000..f882500
--- /dev/null
+++ b/NRWAL/analysis_library/osw_2023/variables.yaml
@@ -0,0 +1 @@
+port_cost: 25000000
diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index d6b0c19..4084fc6 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -541,8 +541,9 @@ class EquationDirectory:
             their locally-defined default variables.
         """
 
-        if var_group is None:
-            var_group = {}
+        # copy so that neither the input nor the variables of sibling
+        # directories are affected by the variables on this level
+        var_group = {} if var_group is None else copy.deepcopy(var_group)
 
         if 'variables' in self.keys() and not force_update:
             # pylint: disable=E1101
@@ -554,7 +555,9 @@ class EquationDirectory:
         self._default_variables.update(copy.deepcopy(var_group))
 
         for v in self.values():
-            if isinstance(v, (EquationDirectory, EquationGroup, Equation)):
+            if isinstance(v, EquationDirectory):
+                v.set_default_variables(var_group, force_update=force_update)
+            elif isinstance(v, (EquationGroup, Equation)):
                 v.set_default_variables(var_group)
 
     @property
-- 
2.43.0


From 2cf698ea5b47152c117badb1812d34270cc73182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:40 +0000
Subject: [PATCH 13/26] fix: power and year lookups act independently and at
 the end of a path only

The interpolation switch of one kind was applied to the lookups of the other kind
and to keys without any match (ValueError instead of KeyError) or with a single
match. Keys like name_MW raised ValueError, 0 MW was ignored, base names holding
the pattern twice were mixed up, variables could not be interpolated, and lookups
were applied to the groups along the path when coming from a directory.
---
 NRWAL/handlers/directories.py |  5 ++++-
 NRWAL/handlers/groups.py      | 34 ++++++++++++++++++----------------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 4084fc6..65f33b6 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -350,11 +350,14 @@ class EquationDirectory:
                 for k in keys]
 
         eqns = self._eqns
-        for ikey in keys:
+        for i, ikey in enumerate(keys):
             try:
                 if Equation.is_num(ikey) and ikey not in eqns:
                     # number as part of a path is not a numerical value
                     raise KeyError(ikey)
+                if isinstance(eqns, (EquationGroup, VariableGroup)):
+                    # power and year lookups depend on the rest of the path
+                    return eqns['::'.join(keys[i:])]
                 eqns = eqns[ikey]
             except (KeyError, TypeError):
                 msg = ('Could not retrieve equation key "{}", '
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 7f05ec5..742102d 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -244,7 +244,7 @@ class AbstractGroup(ABC):
 
         keys = [str(k) for k in keys]
         out = self._group
-        for eqn_key in keys:
+        for i, eqn_key in enumerate(keys):
             if not isinstance(out, (dict, AbstractGroup)):
                 msg = ('Could not retrieve equation key "{}", '
                        'could not find "{}" in: {}'
@@ -253,20 +253,23 @@ class AbstractGroup(ABC):
                 raise KeyError(msg)
 
             nn_eqns, nn_values, eqn_value = \
-                self._get_nn_eqns_values(eqn_key, keys, out)
+                self._get_nn_eqns_values(eqn_key, keys[i:], out)
+
+            interp_extrap = self._interp_extrap_year
+            if self.is_power_eqn(eqn_key):
+                interp_extrap = self._interp_extrap_power
 
             if eqn_key in out:
                 out = out[eqn_key]
 
-            elif (self._interp_extrap_power or self._interp_extrap_year
-                    and len(nn_eqns) > 1):
+            elif interp_extrap and len(nn_eqns) > 1:
                 x1, x3 = nn_values[0:2]
                 y1, y3 = nn_eqns[0:2]
                 out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1
-                if not any(out.variables):
+                if isinstance(out, Equation) and not any(out.variables):
                     out = Equation(out.eval())
 
-            elif any(nn_eqns):
+            elif len(nn_eqns) > 0:
                 out = nn_eqns[0]
 
             else:
@@ -314,9 +317,9 @@ class AbstractGroup(ABC):
         eqn_key
             Current equation retrieval key from the keys list
         keys : list
-            List of equation strings delimited by '::'. For example, if
-            retrieving "2015::eqn_group::eqn_2012", keys will be:
-            ['2015', 'eqn_group', 'eqn_2012']
+            List of equation strings delimited by '::', starting with the
+            eqn_key. For example, if retrieving "2015::eqn_group::eqn_2012",
+            keys will first be: ['2015', 'eqn_group', 'eqn_2012']
         group : EquationGroup
             Current group to retrieve equations from. This is typically the
             group level just before the eqn_key
@@ -338,9 +341,8 @@ class AbstractGroup(ABC):
         nn_eqns = []
         nn_values = []
         eqn_value = None
-        i = keys.index(eqn_key)
 
-        if i == (len(keys) - 1):
+        if len(keys) == 1:
             # Only look for adjacent equations when were at the last
             # retrieval level in the EquationGroup
             if ((self._interp_extrap_power or self._use_nearest_power)
@@ -400,9 +402,9 @@ class AbstractGroup(ABC):
         """
 
         base_str = key
-        power = re.search('_[0-9]*MW$', key, flags=re.IGNORECASE)
+        power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)
         if power is not None:
-            base_str = key.replace(power.group(0), '')
+            base_str = key[:power.start()]
             power = float(power.group(0).upper().replace('MW', '').lstrip('_'))
 
         return power, base_str
@@ -448,10 +450,10 @@ class AbstractGroup(ABC):
             group = self._group
 
         req_mw, base_str = self._parse_power(request)
-        if req_mw:
+        if req_mw is not None:
             for key in group.keys():
                 match_mw, match_base = self._parse_power(key)
-                if match_mw and base_str == match_base:
+                if match_mw is not None and base_str == match_base:
                     eqn_keys.append(key)
                     eqn_powers.append(match_mw)
 
@@ -509,7 +511,7 @@ class AbstractGroup(ABC):
         base_str = key
         year = re.search('_[1-2][0-9]{3}$', key, flags=re.IGNORECASE)
         if year is not None:
-            base_str = key.replace(year.group(0), '')
+            base_str = key[:year.start()]
             year = int(year.group(0).lstrip('_'))
 
             # unlikely to be a year before 1800 or after 2200
-- 
2.43.0


From e41a548106626cbbcf9d30f6e34ae140ebbc9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:04 +0000
Subject: [PATCH 14/26] fix: config pointers only load the entry they point to

Two config files whose entries point at entries of each other, without a circle,
failed with RecursionError as every pointer of the other file was followed.
---
 NRWAL/handlers/config.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 78ed62d..002dcc6 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -281,7 +281,7 @@ class NrwalConfig:
                                        })
 
     @classmethod
-    def _load_config(cls, config):
+    def _load_config(cls, config, pointer_key=None):
         """Load a config dictionary from filepath.
 
         Parameters
@@ -289,6 +289,9 @@ class NrwalConfig:
         config : dict | str
             NRWAL config input. Can be a string filepath to a json or yml file
             or an extracted dictionary.
+        pointer_key : str | None
+            Optional key of the only config entry for which a pointer to
+            another config has to be resolved. None will resolve all pointers.
 
         Returns
         -------
@@ -339,6 +342,9 @@ class NrwalConfig:
         eqn_dir = config.pop('equation_directory')
 
         for key, value in config.items():
+            if pointer_key is not None and key != pointer_key:
+                continue
+
             file_markers = ('.json', '.yaml', '.yml')
             if any(m in str(value) for m in file_markers):
 
@@ -362,7 +368,8 @@ class NrwalConfig:
                 msg = 'Config pointer file not found: {}'.format(fp_other)
                 assert os.path.exists(fp_other), msg
 
-                config[key] = cls._load_config(fp_other)[0][other_key]
+                other = cls._load_config(fp_other, pointer_key=other_key)[0]
+                config[key] = other[other_key]
 
         return config, eqn_dir
 
-- 
2.43.0


From 1d03c2e89c68fada0f79612bb3f5f15e6198bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:57 +0000
Subject: [PATCH 15/26] fix: additional inputs do not hide numpy in equations

Inputs that the formula does not use could replace numpy (np, pd) or builtin
functions. The names of builtin functions are variables unless they are called.
---
 NRWAL/handlers/equations.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index f30d66b..6bbccb3 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -410,6 +410,10 @@ class Equation:
         expression = re.sub(r'([(,]\s*)[^\W\d]\w*\s*=(?!=)', r'\1',
                             expression)
 
+        # removes the names of builtin functions where they are called
+        expression = re.sub(r'(?<![\w.])({})\s*\('
+                            .format('|'.join(cls.BUILTINS)), '(', expression)
+
         delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<',
                       ',', '%', '=', '!', '&', '|', '~', '^', '\t', '\n')
         regex_pattern = '|'.join(map(re.escape, delimiters))
@@ -418,7 +422,7 @@ class Equation:
         variables = [sub for sub in re.split(regex_pattern, expression)
                      if sub
                      and cls.is_variable(sub)
-                     and not cls.is_method(sub)]
+                     and not sub.startswith(('np.', 'pd.'))]
         variables = sorted(list(set(variables)))
         return variables
 
@@ -492,6 +496,9 @@ class Equation:
             logger.error(msg)
             raise RuntimeError(msg)
 
+        # do not use additional inputs that could have the name of a method
+        kwargs = {v: kwargs[v] for v in self.variables}
+
         try:
             out = eval(str(self._eqn), globals(), kwargs)
         except Exception as e:
-- 
2.43.0


From 4d95b3a9465644e83d4c06db716180e2e8cebd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:51 +0000
Subject: [PATCH 16/26] fix: merged groups and directories do not share
 equations with the addends

Setting default variables on a sum of groups or directories changed the right
addend, and variable groups could not be added (AttributeError).
---
 NRWAL/handlers/directories.py | 2 +-
 NRWAL/handlers/groups.py      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 65f33b6..59d622d 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -295,7 +295,7 @@ class EquationDirectory:
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._eqns.update(other._eqns)
+        out._eqns.update(copy.deepcopy(other._eqns))
         out.set_default_variables(other._default_variables)
 
         return out
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 742102d..ab550fc 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -109,7 +109,7 @@ class AbstractGroup(ABC):
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._group.update(other._group)
+        out._group.update(copy.deepcopy(other._group))
         out.set_default_variables(other._default_variables)
 
         return out
@@ -635,7 +635,8 @@ class AbstractGroup(ABC):
         if var_dict is not None:
             self._default_variables.update(copy.deepcopy(var_dict))
             for v in self.values():
-                v.set_default_variables(var_dict)
+                if isinstance(v, (Equation, AbstractGroup)):
+                    v.set_default_variables(var_dict)
 
     @classmethod
     def _r_all_equations(cls, obj):
-- 
2.43.0


From f74bc1cc279a0503cd66118da509a7e3759b3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:35 +0000
Subject: [PATCH 17/26] fix: numpy integer inputs are used as floats

Equation.evaluate() turns integer arrays and Python ints into floats but
let numpy integer scalars through, which overflow and cannot be raised to
negative powers.
---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 6bbccb3..85c4b7a 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -87,7 +87,7 @@ class Equation:
             if isinstance(v, np.ndarray):
                 if np.issubdtype(v.dtype, np.integer):
                     kwargs[k] = v.astype(np.float32)
-            elif isinstance(v, int):
+            elif isinstance(v, (int, np.integer)):
                 kwargs[k] = float(v)
 
         return kwargs
-- 
2.43.0


From d8d234d405c75cb0c075ddb72ac3128bade57510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:13 +0000
Subject: [PATCH 18/26] fix: inputs override constant config entries in any
 entry order

A constant entry that is an expression was put in the outputs when it came
before the equation that uses it and then hid the input of the same name.
---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 002dcc6..744aae9 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1042,7 +1042,8 @@ class NrwalConfig:
 
                     kwargs = copy.deepcopy(self.global_variables)
                     kwargs.update(self.inputs)
-                    kwargs.update(self._outputs)
+                    kwargs.update({x: y for x, y in self._outputs.items()
+                                   if x not in self.global_variables})
 
                     try:
                         self._outputs[k] = v.evaluate(**kwargs)
-- 
2.43.0


From e2cb3ff11f9d58f92c45ae11f98d874f6fb5e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:17 +0000
Subject: [PATCH 19/26] fix: equation arithmetic keeps the defaults of
 variables only one equation uses

The default variables of the right operand replaced those of the left also
for variables that only the left operand uses: the default osw_2019 configs
used the transmission cost of osw_2019 in the osw_2015 grid costs, depending
on the entry.
---
 NRWAL/handlers/equations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 85c4b7a..9d2494d 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -151,7 +151,10 @@ class Equation:
         new_eqn = '{} {} {}'.format(arg1, operator, arg2)
         new_str = '({} {} {})'.format(self, operator, other)
         def_vars = copy.deepcopy(self._default_variables)
-        def_vars.update(other._default_variables)
+        # variables used only by self keep the default values of self
+        keep = set(self.variables) - set(other.variables)
+        def_vars.update({k: v for k, v in other._default_variables.items()
+                         if k not in keep or k not in def_vars})
         out = cls(new_eqn, default_variables=def_vars)
         out._str = new_str
         return out
-- 
2.43.0


From 05965b036a024e5b27b8277ae36a3354028f1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:39 +0000
Subject: [PATCH 20/26] fix: config entries no longer share equation and group
 objects

---
 NRWAL/handlers/config.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 744aae9..f334da6 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -488,9 +488,11 @@ class NrwalConfig:
                 logger.error(msg)
                 raise TypeError(msg)
 
-            out[name] = cls._parse_expression(expression, config, eqn_dir,
-                                              copy.deepcopy(gvars), name=name)
-            config[name] = copy.deepcopy(out[name])
+            config[name] = cls._parse_expression(expression, config, eqn_dir,
+                                                 copy.deepcopy(gvars),
+                                                 name=name)
+            # entries do not share objects with each other or the library
+            out[name] = copy.deepcopy(config[name])
 
         return out
 
@@ -565,6 +567,8 @@ class NrwalConfig:
             out = Equation(out, name=name)
 
         if isinstance(out, Equation) and name is not None:
+            # do not rename the equation of the library or of another entry
+            out = copy.deepcopy(out)
             out._base_name = name
             out._str = None
 
-- 
2.43.0


From 6cf4d86230d94eb4b920ae242b5e49af255064b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:41 +0000
Subject: [PATCH 21/26] fix: an empty equation is refused

---
 NRWAL/handlers/equations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 9d2494d..4e6f932 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -46,6 +46,11 @@ class Equation:
 
     def _preflight(self):
         """Run preflight checks on the equation string."""
+        if not self._eqn.strip():
+            msg = 'Cannot use an empty equation: {}'.format(self._base_name)
+            logger.error(msg)
+            raise ValueError(msg)
+
         for substr in self.ILLEGAL:
             if substr in str(self._eqn):
                 msg = ('Will not evaluate string which contains "{}": {}'
-- 
2.43.0


From 0241c4e28f0aabe8d9ea24fe6b25cde8b65ac722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:59 +0000
Subject: [PATCH 22/26] fix: configs can be copied and pickled, unknown
 attributes raise AttributeError

---
 NRWAL/handlers/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index f334da6..b744176 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -769,6 +769,12 @@ class NrwalConfig:
         out : int | float | np.ndarray | Equation
             Requested data prioritized from the outputs then the config.
         """
+        # the config may not be there yet while copying or unpickling
+        if attr not in self.__dict__.get('_config', {}):
+            msg = ('"{}" object has no attribute or config key "{}"'
+                   .format(self.__class__.__name__, attr))
+            raise AttributeError(msg)
+
         return self[attr]
 
     def __str__(self):
-- 
2.43.0


From 19986f766db866b02eff3f16766e6ecf7796884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:09 +0000
Subject: [PATCH 23/26] fix: the printed form of an equation shows its current
 default variables

---
 NRWAL/handlers/equations.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 4e6f932..20432cf 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -281,9 +281,11 @@ class Equation:
         return str(self)
 
     def __str__(self):
-        if self._str is None:
+        # not saved because the default variables can be updated
+        out = self._str
+        if out is None:
             if self.is_num(self._eqn) and not any(self.variables):
-                self._str = str(self._eqn)
+                out = str(self._eqn)
 
             else:
                 vars_str = [v for v in self.variables
@@ -299,11 +301,11 @@ class Equation:
                     vars_str += base_str + kw_str
 
                 if self._base_name is None:
-                    self._str = 'Equation({})'.format(vars_str)
+                    out = 'Equation({})'.format(vars_str)
                 else:
-                    self._str = '{}({})'.format(self._base_name, vars_str)
+                    out = '{}({})'.format(self._base_name, vars_str)
 
-        return self._str
+        return out
 
     def __contains__(self, arg):
         return arg in self._eqn
-- 
2.43.0


From d10656b8e4666894b3691531b132aed479188662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:57 +0000
Subject: [PATCH 24/26] fix: variables with the name of a config group or
 folder are required inputs

---
 NRWAL/handlers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index b744176..9208e6c 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -912,7 +912,7 @@ class NrwalConfig:
             if isinstance(eqn, Equation):
                 names += [v for v in eqn.variables
                           if v not in self.global_variables
-                          and v not in self._config
+                          and not isinstance(self._config.get(v), Equation)
                           and v not in eqn.default_variables]
 
         return sorted(list(set(names)))
-- 
2.43.0


From ad31b2c97d666160f19d4dfe167e6629bbe89d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:48 +0000
Subject: [PATCH 25/26] fix: entries that wait for each other through library
 equations are not solved with defaults

Two config entries that use each other as variables of library equations
were evaluated with the inputs or default variables of the same names, in
the order of the config: the results contradicted each other and depended
on the order. They are now reported as never solved.
---
 NRWAL/handlers/config.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 9208e6c..a1d5187 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1035,8 +1035,6 @@ class NrwalConfig:
         # outputs of previous evaluations may be from other inputs
         self._outputs = {}
 
-        i = 0
-        stuck = False
         while not self.solved:
             to_be_solved = self.to_be_solved
             for k, v in self.items():
@@ -1046,7 +1044,7 @@ class NrwalConfig:
                 elif isinstance(v, Equation):
                     waiting = [x for x in v.variables
                                if x in self.to_be_solved and x != k]
-                    if k in self._outputs or (any(waiting) and not stuck):
+                    if k in self._outputs or any(waiting):
                         # already solved or needs another equation first
                         continue
 
@@ -1085,9 +1083,7 @@ class NrwalConfig:
                     logger.error(msg)
                     raise TypeError(msg)
 
-            stuck = self.to_be_solved == to_be_solved
-            i += 1
-            if i > 100 + len(self._config):
+            if self.to_be_solved == to_be_solved:
                 msg = ('NRWAL compute failed! The following config keys were '
                        'never solved: {}'.format(self.to_be_solved))
                 logger.error(msg)
-- 
2.43.0


From 48cf2aead6c4a3e5234c1e647504479c7a2e0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:52 +0000
Subject: [PATCH 26/26] fix: names like workspace_1 are not mistaken for parts
 of an expression

A variable, config entry or equation called workspace_<n> was silently
replaced by the n-th parenthetical statement of an expression, or made the
parser fail.
---
 NRWAL/handlers/config.py | 3 ++-
 NRWAL/handlers/groups.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index a1d5187..6533dba 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -620,7 +620,8 @@ class NrwalConfig:
             if not is_method:
                 start_loc, end_loc = find_parens(expression)[0]
 
-            wkey = 'workspace_{}'.format(1 + len(gvars))
+            # null character: a name that no entry or input can have
+            wkey = '\0{}'.format(1 + len(gvars))
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
             expression = (expression[:start_loc] + wkey
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index ab550fc..9503275 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -164,7 +164,8 @@ class AbstractGroup(ABC):
 
         while '(' in key:
             start_loc, end_loc = find_parens(key)[0]
-            wkey = 'workspace_{}'.format(1 + len(workspace))
+            # null character: a name that no equation or variable can have
+            wkey = '\0{}'.format(1 + len(workspace))
             assert wkey not in workspace
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
-- 
2.43.0

