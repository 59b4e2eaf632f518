From c21a6e7c8ac375e1c9739b0e90be191b5f0d8636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 01/39] fix: arraySet accepts an index held as a float

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 00eef30..9019870 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -266,7 +266,7 @@ def _array_set(args, unused_options):
     if index >= len(array):
         raise ValueArgsError('index', index)
 
-    array[index] = value
+    array[int(index)] = value
     return value
 
 _ARRAY_SET_ARGS = value_args_model([
-- 
2.43.0


From b100709081b9f02ebe0e81c86d1b2660163fc3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 02/39] fix: dataTop accepts a count held as a float

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 40356d2..27a56fe 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -471,7 +471,7 @@ def top_data(data, count, category_fields=None):
     data_top = []
     for category_key in category_order:
         category_key_rows = category_rows[category_key]
-        for ix_row in range(min(count, len(category_key_rows))):
+        for ix_row in range(min(int(count), len(category_key_rows))):
             data_top.append(category_key_rows[ix_row])
 
     return data_top
-- 
2.43.0


From 12ed9ec9faa0d0c7b566d8f150457f4cffe9ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 03/39] fix: JSON text of a value keeps every character of its
 strings

---
 src/bare_script/value.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7d15158..16720ff 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -109,12 +109,21 @@ def value_json(value, indent=None):
     :rtype: str
     """
 
+    json_value = _json_value(value)
     if indent is not None and indent > 0:
-        result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)
-    else:
-        result = _JSON_ENCODER_DEFAULT.encode(value)
-    result = _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'', result)
-    return _R_VALUE_JSON_NUMBER_CLEANUP2.sub(r'\1', result)
+        return _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(json_value)
+    return _JSON_ENCODER_DEFAULT.encode(json_value)
+
+
+# Helper function to get a copy of a value with its integral numbers as integers (i.e. no fraction)
+def _json_value(value):
+    if isinstance(value, float) and value.is_integer():
+        return int(value)
+    elif isinstance(value, list):
+        return [_json_value(item) for item in value]
+    elif isinstance(value, dict):
+        return {key: _json_value(item) for key, item in value.items()}
+    return value
 
 
 class _JSONEncoder(json.JSONEncoder):
@@ -130,9 +139,6 @@ class _JSONEncoder(json.JSONEncoder):
 
 _JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)
 
-_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'\.0*$', re.MULTILINE)
-_R_VALUE_JSON_NUMBER_CLEANUP2 = re.compile(r'\.0*([,}\]])')
-
 
 def value_boolean(value):
     """
-- 
2.43.0


From 55f3bf138088245c8a79e30b00c5d6c98600e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 04/39] fix: integral numbers above 1e16 stringify without a
 decimal point

---
 src/bare_script/value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 16720ff..698801d 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -67,6 +67,8 @@ def value_string(value):
     elif isinstance(value, int):
         return str(value)
     elif isinstance(value, float):
+        if value != 0 and value.is_integer():
+            return str(int(value))
         return R_NUMBER_CLEANUP.sub('', str(value))
     elif isinstance(value, datetime.date):
         iso = value_normalize_datetime(value).astimezone().isoformat()
-- 
2.43.0


From f2fa544c9a4a06e50014bf4c338b7eec501146d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 05/39] fix: digit-group underscores are not part of number
 text

---
 src/bare_script/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 698801d..aa30214 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -463,7 +463,7 @@ def value_parse_number(text):
     """
 
     try:
-        value = float(text)
+        value = float(text) if '_' not in text else math.nan
         if math.isnan(value) or math.isinf(value):
             return None
         return value
@@ -484,7 +484,7 @@ def value_parse_integer(text, radix=10):
     """
 
     try:
-        return int(text, radix)
+        return int(text, radix) if '_' not in text else None
     except ValueError:
         return None
 
-- 
2.43.0


From 38aaf241b90426bb792b543fa3860ebbf09e159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 06/39] fix: text that is not a valid ISO date or datetime
 parses to null

---
 src/bare_script/value.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index aa30214..90eb3a4 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -505,19 +505,23 @@ def value_parse_datetime(text):
     """
 
     m_date = _R_DATE.match(text)
-    if m_date is not None:
-        year = int(m_date.group('year'))
-        month = int(m_date.group('month'))
-        day = int(m_date.group('day'))
-        return datetime.datetime(year, month, day)
-    elif _R_DATETIME.match(text):
-        result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
-        return result.replace(microsecond=(result.microsecond // 1000) * 1000)
+    try:
+        if m_date is not None:
+            year = int(m_date.group('year'))
+            month = int(m_date.group('month'))
+            day = int(m_date.group('day'))
+            return datetime.datetime(year, month, day)
+        elif _R_DATETIME.match(text):
+            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+            return result.replace(microsecond=(result.microsecond // 1000) * 1000)
+    except (ValueError, OverflowError):
+        # Not a valid calendar date/time
+        pass
 
     return None
 
-_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$')
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})$')
+_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
+_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:[0-5]\d)\Z', re.ASCII)
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From c142104ca575c18778dab1de9bb55b53503f8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 07/39] fix: a boolean is a wrong-typed number argument

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 90eb3a4..7bc4a95 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -305,7 +305,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             continue
 
         # Invalid value?
-        if ((arg_type == 'number' and not isinstance(arg_value, (int, float))) or
+        if ((arg_type == 'number' and (isinstance(arg_value, bool) or not isinstance(arg_value, (int, float)))) or
             (arg_type == 'string' and not isinstance(arg_value, str)) or
             (arg_type == 'array' and not isinstance(arg_value, list)) or
             (arg_type == 'object' and not isinstance(arg_value, dict)) or
-- 
2.43.0


From ebdb5529c03878925b2188d45e092e320f6669fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 08/39] fix: an invalid argument with no JSON text still
 returns the documented failure value

---
 src/bare_script/value.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7bc4a95..8062056 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -320,7 +320,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             arg_lte = fn_arg.get('lte')
             arg_gt = fn_arg.get('gt')
             arg_gte = fn_arg.get('gte')
-            if ((fn_arg.get('integer') and int(arg_value) != arg_value) or
+            if ((fn_arg.get('integer') and isinstance(arg_value, float) and not arg_value.is_integer()) or
                 (arg_lt is not None and not (arg_value < arg_lt)) or
                 (arg_lte is not None and not (arg_value <= arg_lte)) or
                 (arg_gt is not None and not (arg_value > arg_gt)) or
@@ -350,10 +350,15 @@ class ValueArgsError(Exception):
     """
 
     def __init__(self, arg_name, arg_value, return_value = None):
+        try:
+            arg_json = value_json(arg_value)
+        except Exception: # pylint: disable=broad-exception-caught
+            # The value has no JSON representation (non-finite number, circular reference, etc.)
+            arg_json = f'<{value_type(arg_value)}>'
         if arg_name is None:
-            message = f'Too many arguments ({value_json(arg_value)})'
+            message = f'Too many arguments ({arg_json})'
         else:
-            message = f'Invalid "{arg_name}" argument value, {value_json(arg_value)}'
+            message = f'Invalid "{arg_name}" argument value, {arg_json}'
         super().__init__(message)
         self.return_value = return_value
 
-- 
2.43.0


From efe67d48d975af9c3deee3d56b61942d969152b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 09/39] fix: arithmetic operators do not support booleans

---
 src/bare_script/runtime.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 316f2fe..94b0392 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -269,7 +269,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
         if bin_op == '+':
             # number + number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value + right_value
 
             # string + string
@@ -283,16 +283,16 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
                 return value_string(left_value) + right_value
 
             # datetime + number
-            elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
+            elif isinstance(left_value, datetime.date) and _is_number(right_value):
                 left_dt = value_normalize_datetime(left_value)
                 return left_dt + datetime.timedelta(milliseconds=right_value)
-            elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
+            elif _is_number(left_value) and isinstance(right_value, datetime.date):
                 right_dt = value_normalize_datetime(right_value)
                 return right_dt + datetime.timedelta(milliseconds=left_value)
 
         elif bin_op == '-':
             # number - number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value - right_value
 
             # datetime - datetime
@@ -303,12 +303,12 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         elif bin_op == '*':
             # number * number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value * right_value
 
         elif bin_op == '/':
             # number / number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value / right_value
 
         elif bin_op == '==':
@@ -331,12 +331,12 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         elif bin_op == '%':
             # number % number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value % right_value
 
         else: # bin_op == '**'
             # number ** number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value ** right_value
 
         # Invalid operation values
@@ -348,7 +348,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
         if unary_op == '!':
             return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
+        elif unary_op == '-' and _is_number(value):
             return -value
 
         # Invalid operation value
@@ -359,6 +359,11 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     return evaluate_expression(expr['group'], options, locals_, builtins)
 
 
+# Helper function to determine if a value is a number (a host boolean is not)
+def _is_number(value):
+    return isinstance(value, (int, float)) and not isinstance(value, bool)
+
+
 class BareScriptRuntimeError(Exception):
     """
     A BareScript runtime error
-- 
2.43.0


From 153b5bc39e24e712c97208583004b66e3b0d9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 10/39] fix: an operation with no result evaluates to null
 instead of raising a host exception

---
 src/bare_script/runtime.py | 158 ++++++++++++++++++++-----------------
 1 file changed, 84 insertions(+), 74 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 94b0392..b4ee245 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -267,80 +267,11 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Non-short-circuiting binary operators
         right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
-        if bin_op == '+':
-            # number + number
-            if _is_number(left_value) and _is_number(right_value):
-                return left_value + right_value
-
-            # string + string
-            elif isinstance(left_value, str) and isinstance(right_value, str):
-                return left_value + right_value
-
-            # string + <any>
-            elif isinstance(left_value, str):
-                return left_value + value_string(right_value)
-            elif isinstance(right_value, str):
-                return value_string(left_value) + right_value
-
-            # datetime + number
-            elif isinstance(left_value, datetime.date) and _is_number(right_value):
-                left_dt = value_normalize_datetime(left_value)
-                return left_dt + datetime.timedelta(milliseconds=right_value)
-            elif _is_number(left_value) and isinstance(right_value, datetime.date):
-                right_dt = value_normalize_datetime(right_value)
-                return right_dt + datetime.timedelta(milliseconds=left_value)
-
-        elif bin_op == '-':
-            # number - number
-            if _is_number(left_value) and _is_number(right_value):
-                return left_value - right_value
-
-            # datetime - datetime
-            elif isinstance(left_value, datetime.date) and isinstance(right_value, datetime.date):
-                left_dt = value_normalize_datetime(left_value)
-                right_dt = value_normalize_datetime(right_value)
-                return value_round_number((left_dt - right_dt).total_seconds() * 1000, 0)
-
-        elif bin_op == '*':
-            # number * number
-            if _is_number(left_value) and _is_number(right_value):
-                return left_value * right_value
-
-        elif bin_op == '/':
-            # number / number
-            if _is_number(left_value) and _is_number(right_value):
-                return left_value / right_value
-
-        elif bin_op == '==':
-            return value_compare(left_value, right_value) == 0
-
-        elif bin_op == '!=':
-            return value_compare(left_value, right_value) != 0
-
-        elif bin_op == '<=':
-            return value_compare(left_value, right_value) <= 0
-
-        elif bin_op == '<':
-            return value_compare(left_value, right_value) < 0
-
-        elif bin_op == '>=':
-            return value_compare(left_value, right_value) >= 0
-
-        elif bin_op == '>':
-            return value_compare(left_value, right_value) > 0
-
-        elif bin_op == '%':
-            # number % number
-            if _is_number(left_value) and _is_number(right_value):
-                return left_value % right_value
-
-        else: # bin_op == '**'
-            # number ** number
-            if _is_number(left_value) and _is_number(right_value):
-                return left_value ** right_value
-
-        # Invalid operation values
-        return None
+        try:
+            return _evaluate_binary_operator(bin_op, left_value, right_value)
+        except (ArithmeticError, RecursionError, TypeError, ValueError):
+            # The operation has no result (division by zero, out-of-range, circular value, etc.)
+            return None
 
     # Unary expression
     if expr_key == 'unary':
@@ -359,6 +290,85 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     return evaluate_expression(expr['group'], options, locals_, builtins)
 
 
+# Helper function to evaluate a non-short-circuiting binary operator
+def _evaluate_binary_operator(bin_op, left_value, right_value):
+    if bin_op == '+':
+        # number + number
+        if _is_number(left_value) and _is_number(right_value):
+            return left_value + right_value
+
+        # string + string
+        elif isinstance(left_value, str) and isinstance(right_value, str):
+            return left_value + right_value
+
+        # string + <any>
+        elif isinstance(left_value, str):
+            return left_value + value_string(right_value)
+        elif isinstance(right_value, str):
+            return value_string(left_value) + right_value
+
+        # datetime + number
+        elif isinstance(left_value, datetime.date) and _is_number(right_value):
+            left_dt = value_normalize_datetime(left_value)
+            return left_dt + datetime.timedelta(milliseconds=right_value)
+        elif _is_number(left_value) and isinstance(right_value, datetime.date):
+            right_dt = value_normalize_datetime(right_value)
+            return right_dt + datetime.timedelta(milliseconds=left_value)
+
+    elif bin_op == '-':
+        # number - number
+        if _is_number(left_value) and _is_number(right_value):
+            return left_value - right_value
+
+        # datetime - datetime
+        elif isinstance(left_value, datetime.date) and isinstance(right_value, datetime.date):
+            left_dt = value_normalize_datetime(left_value)
+            right_dt = value_normalize_datetime(right_value)
+            return value_round_number((left_dt - right_dt).total_seconds() * 1000, 0)
+
+    elif bin_op == '*':
+        # number * number
+        if _is_number(left_value) and _is_number(right_value):
+            return left_value * right_value
+
+    elif bin_op == '/':
+        # number / number
+        if _is_number(left_value) and _is_number(right_value):
+            return left_value / right_value
+
+    elif bin_op == '==':
+        return value_compare(left_value, right_value) == 0
+
+    elif bin_op == '!=':
+        return value_compare(left_value, right_value) != 0
+
+    elif bin_op == '<=':
+        return value_compare(left_value, right_value) <= 0
+
+    elif bin_op == '<':
+        return value_compare(left_value, right_value) < 0
+
+    elif bin_op == '>=':
+        return value_compare(left_value, right_value) >= 0
+
+    elif bin_op == '>':
+        return value_compare(left_value, right_value) > 0
+
+    elif bin_op == '%':
+        # number % number
+        if _is_number(left_value) and _is_number(right_value):
+            return left_value % right_value
+
+    else: # bin_op == '**'
+        # number ** number
+        if _is_number(left_value) and _is_number(right_value):
+            result = left_value ** right_value
+            return result if not isinstance(result, complex) else None
+
+    # Invalid operation values
+    return None
+
+
 # Helper function to determine if a value is a number (a host boolean is not)
 def _is_number(value):
     return isinstance(value, (int, float)) and not isinstance(value, bool)
-- 
2.43.0


From 32b57419500a6db594649d1eccae80cb7d59fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 11/39] fix: arithmetic on integers held as int or float gives
 the same number

---
 src/bare_script/runtime.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index b4ee245..9bd4e7e 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -295,7 +295,7 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
     if bin_op == '+':
         # number + number
         if _is_number(left_value) and _is_number(right_value):
-            return left_value + right_value
+            return float(left_value) + float(right_value)
 
         # string + string
         elif isinstance(left_value, str) and isinstance(right_value, str):
@@ -318,7 +318,7 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
     elif bin_op == '-':
         # number - number
         if _is_number(left_value) and _is_number(right_value):
-            return left_value - right_value
+            return float(left_value) - float(right_value)
 
         # datetime - datetime
         elif isinstance(left_value, datetime.date) and isinstance(right_value, datetime.date):
@@ -329,12 +329,12 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
     elif bin_op == '*':
         # number * number
         if _is_number(left_value) and _is_number(right_value):
-            return left_value * right_value
+            return float(left_value) * float(right_value)
 
     elif bin_op == '/':
         # number / number
         if _is_number(left_value) and _is_number(right_value):
-            return left_value / right_value
+            return float(left_value) / float(right_value)
 
     elif bin_op == '==':
         return value_compare(left_value, right_value) == 0
@@ -357,12 +357,12 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
     elif bin_op == '%':
         # number % number
         if _is_number(left_value) and _is_number(right_value):
-            return left_value % right_value
+            return float(left_value) % float(right_value)
 
     else: # bin_op == '**'
         # number ** number
         if _is_number(left_value) and _is_number(right_value):
-            result = left_value ** right_value
+            result = float(left_value) ** float(right_value)
             return result if not isinstance(result, complex) else None
 
     # Invalid operation values
-- 
2.43.0


From 047353a4ddea212fee805d77ae1cffd3b7658632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 12/39] fix: negating zero gives the same number whether it is
 held as int or float

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 9bd4e7e..c860b45 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -280,7 +280,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         if unary_op == '!':
             return not value_boolean(value)
         elif unary_op == '-' and _is_number(value):
-            return -value
+            return -value if value != 0 else -float(value)
 
         # Invalid operation value
         return None
-- 
2.43.0


From b97608fe994f0ee4aa02c9004af1014fdd252656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 13/39] fix: rounding does not depend on the int or float
 spelling of its arguments

---
 src/bare_script/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 8062056..502048a 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -453,8 +453,8 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** digits
-    return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
+    multiplier = 10 ** int(digits)
+    return int(float(value) * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
 def value_parse_number(text):
-- 
2.43.0


From 502ccff56cff5258f8cc4bf650b1a7f643c0ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 14/39] fix: a call model with no arguments member passes no
 arguments

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index c860b45..e3467b6 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -223,7 +223,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Compute the function arguments
         func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
-            if 'args' in expr['function'] else None
+            if 'args' in expr['function'] else []
 
         # Global/local function?
         if locals_ is not None and func_name in locals_:
-- 
2.43.0


From 5f92752f4316e40112a5e0a409a3fb008afbacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 15/39] fix: statements of an included script count against the
 statement budget

---
 src/bare_script/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index e3467b6..2a637c5 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -140,6 +140,7 @@ def _execute_script_helper(statements, options, locals_):
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 _execute_script_helper(script['statements'], include_options, None)
+                options['statementCount'] = include_options['statementCount']
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From 80c225d1a195fb8f018586ce781d76a5f9124f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 16/39] fix: data function expressions with variables count
 against the statement budget

---
 src/bare_script/data.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 27a56fe..d2d482b 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -25,6 +25,16 @@ def _import_evaluate_expression():
 _EVALUATE_EXPRESSION = []
 
 
+# Helper to evaluate an expression on a row using the evaluation options - the statement count is shared with the execution options
+def _evaluate_row(expr, eval_options, row, options):
+    evaluate_expression = _import_evaluate_expression()
+    try:
+        return evaluate_expression(expr, eval_options, row)
+    finally:
+        if eval_options is not options and options is not None and 'statementCount' in eval_options:
+            options['statementCount'] = eval_options['statementCount']
+
+
 def validate_data(data, csv=False):
     """
     Determine data field types and parse/validate field values
@@ -157,8 +167,6 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Compute the map of row field name to joined row field name
     left_names = {}
     right_names_raw = {}
@@ -198,7 +206,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(evaluate_expression(right_expression, eval_options, right_row))
+        category_key = value_json(_evaluate_row(right_expression, eval_options, right_row, options))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -206,7 +214,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(evaluate_expression(left_expression, eval_options, left_row))
+        category_key = value_json(_evaluate_row(left_expression, eval_options, left_row, options))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -237,8 +245,6 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Parse the calculation expression
     calc_expr = parse_expression(expr)
 
@@ -253,7 +259,7 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
 
     # Compute the calculated field for each row
     for row in data:
-        row[field_name] = evaluate_expression(calc_expr, eval_options, row)
+        row[field_name] = _evaluate_row(calc_expr, eval_options, row, options)
 
     return data
 
@@ -275,7 +281,6 @@ def filter_data(data, expr, variables=None, options=None):
     """
 
     result = []
-    evaluate_expression = _import_evaluate_expression()
 
     # Parse the filter expression
     filter_expr = parse_expression(expr)
@@ -291,7 +296,7 @@ def filter_data(data, expr, variables=None, options=None):
 
     # Filter the data
     for row in data:
-        if value_boolean(evaluate_expression(filter_expr, eval_options, row)):
+        if value_boolean(_evaluate_row(filter_expr, eval_options, row, options)):
             result.append(row)
 
     return result
-- 
2.43.0


From d9590744090ffd6db6daf19756855bee18eda205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 17/39] fix: a syntax error in a text included by a function is
 not swallowed by the call

---
 src/bare_script/runtime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 2a637c5..ecc97cb 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -125,7 +125,7 @@ def _execute_script_helper(statements, options, locals_):
                 try:
                     script = parse_script(script_text)
                 except BareScriptParserError as exc:
-                    raise BareScriptParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
+                    raise _IncludeParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
 
                 # Run the bare-script linter?
                 if log_fn is not None and options.get('debug'):
@@ -237,7 +237,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             # Call the function
             try:
                 return func_value(func_args, options)
-            except BareScriptRuntimeError:
+            except (BareScriptRuntimeError, _IncludeParserError):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
@@ -385,3 +385,8 @@ class BareScriptRuntimeError(Exception):
 
     def __init__(self, message):
         super().__init__(message)
+
+
+# An include parser error - unlike other errors, it is not contained by a function call
+class _IncludeParserError(BareScriptParserError):
+    pass
-- 
2.43.0


From 5c0b79190735b8c3db81fdfb847cd9308f23cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 18/39] fix: exceeding the recursion depth is a BareScript
 runtime error

---
 src/bare_script/runtime.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index ecc97cb..b9f0b81 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -41,7 +41,10 @@ def execute_script(script, options=None):
 
     # Execute the script
     options['statementCount'] = 0
-    return _execute_script_helper(script['statements'], options, None)
+    try:
+        return _execute_script_helper(script['statements'], options, None)
+    except RecursionError:
+        raise BareScriptRuntimeError('Maximum recursion depth exceeded') # pylint: disable=raise-missing-from
 
 
 def _execute_script_helper(statements, options, locals_):
@@ -63,7 +66,7 @@ def _execute_script_helper(statements, options, locals_):
 
         # Expression?
         if statement_key == 'expr':
-            expr_value = evaluate_expression(statement['expr']['expr'], options, locals_, False)
+            expr_value = _evaluate_expression(statement['expr']['expr'], options, locals_, False)
             expr_name = statement['expr'].get('name')
             if expr_name is not None:
                 if locals_ is not None:
@@ -74,7 +77,7 @@ def _execute_script_helper(statements, options, locals_):
         # Jump?
         elif statement_key == 'jump':
             # Evaluate the expression (if any)
-            if 'expr' not in statement['jump'] or value_boolean(evaluate_expression(statement['jump']['expr'], options, locals_, False)):
+            if 'expr' not in statement['jump'] or value_boolean(_evaluate_expression(statement['jump']['expr'], options, locals_, False)):
                 # Find the label
                 if label_indexes is not None and statement['jump']['label'] in label_indexes:
                     ix_statement = label_indexes[statement['jump']['label']]
@@ -91,7 +94,7 @@ def _execute_script_helper(statements, options, locals_):
         # Return?
         elif statement_key == 'return':
             if 'expr' in statement['return']:
-                return evaluate_expression(statement['return']['expr'], options, locals_, False)
+                return _evaluate_expression(statement['return']['expr'], options, locals_, False)
             return None
 
         # Function?
@@ -181,6 +184,13 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     :raises BareScriptRuntimeError: A script runtime error occurred
     """
 
+    try:
+        return _evaluate_expression(expr, options, locals_, builtins)
+    except RecursionError:
+        raise BareScriptRuntimeError('Maximum recursion depth exceeded') # pylint: disable=raise-missing-from
+
+
+def _evaluate_expression(expr, options, locals_, builtins):
     expr_key, = expr.keys()
     globals_ = options.get('globals') if options is not None else None
 
@@ -218,12 +228,12 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             value_expr = args_expr[0] if args_expr_length >= 1 else None
             true_expr = args_expr[1] if args_expr_length >= 2 else None
             false_expr = args_expr[2] if args_expr_length >= 3 else None
-            value = evaluate_expression(value_expr, options, locals_, builtins) if value_expr else False
+            value = _evaluate_expression(value_expr, options, locals_, builtins) if value_expr else False
             result_expr = true_expr if value_boolean(value) else false_expr
-            return evaluate_expression(result_expr, options, locals_, builtins) if result_expr else None
+            return _evaluate_expression(result_expr, options, locals_, builtins) if result_expr else None
 
         # Compute the function arguments
-        func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
+        func_args = [_evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
             if 'args' in expr['function'] else []
 
         # Global/local function?
@@ -252,22 +262,22 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     # Binary expression
     if expr_key == 'binary':
         bin_op = expr['binary']['op']
-        left_value = evaluate_expression(expr['binary']['left'], options, locals_, builtins)
+        left_value = _evaluate_expression(expr['binary']['left'], options, locals_, builtins)
 
         # Short-circuiting "and" binary operator
         if bin_op == '&&':
             if not value_boolean(left_value):
                 return left_value
-            return evaluate_expression(expr['binary']['right'], options, locals_, builtins)
+            return _evaluate_expression(expr['binary']['right'], options, locals_, builtins)
 
         # Short-circuiting "or" binary operator
         elif bin_op == '||':
             if value_boolean(left_value):
                 return left_value
-            return evaluate_expression(expr['binary']['right'], options, locals_, builtins)
+            return _evaluate_expression(expr['binary']['right'], options, locals_, builtins)
 
         # Non-short-circuiting binary operators
-        right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
+        right_value = _evaluate_expression(expr['binary']['right'], options, locals_, builtins)
         try:
             return _evaluate_binary_operator(bin_op, left_value, right_value)
         except (ArithmeticError, RecursionError, TypeError, ValueError):
@@ -277,7 +287,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     # Unary expression
     if expr_key == 'unary':
         unary_op = expr['unary']['op']
-        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
+        value = _evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
         if unary_op == '!':
             return not value_boolean(value)
         elif unary_op == '-' and _is_number(value):
@@ -288,7 +298,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
     # Expression group
     # expr_key == 'group'
-    return evaluate_expression(expr['group'], options, locals_, builtins)
+    return _evaluate_expression(expr['group'], options, locals_, builtins)
 
 
 # Helper function to evaluate a non-short-circuiting binary operator
-- 
2.43.0


From e51865cf470ab43c384a47334c4c719e4c6b1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 19/39] fix: an expression nested too deeply to parse is a
 parser error

---
 src/bare_script/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4d0ccdd..16162a6 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -449,6 +449,8 @@ def parse_expression(expr_text):
     except BareScriptParserError as error:
         column_number = len(expr_text) - len(error.line) + 1
         raise BareScriptParserError(error.error, expr_text, column_number)
+    except RecursionError:
+        raise BareScriptParserError('Expression is nested too deeply', expr_text) # pylint: disable=raise-missing-from
 
 
 # Helper function to parse a binary operator expression chain
-- 
2.43.0


From 2e13d25c45c7f19daa3550093e38e271a472f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 20/39] fix: a line continued past the end of input is an error
 instead of silently dropped

---
 src/bare_script/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 16162a6..fded69e 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -393,6 +393,10 @@ def parse_script(script_text, start_line_number=1):
         except BareScriptParserError as error:
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
+    # Dangling line continuation?
+    if line_continuation:
+        raise BareScriptParserError('Missing continued line', ' '.join(line_continuation), 1, start_line_number + ix_line)
+
     # Dangling label definitions?
     if label_defs:
         label_def = label_defs.pop()
-- 
2.43.0


From dab8909747d6548586c8adee07feecf42fe72eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 21/39] fix: a function left open at end of input is an error

---
 src/bare_script/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index fded69e..48701b5 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -89,6 +89,8 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the function definition statement
             function_label_def_depth = len(label_defs)
+            function_line = line
+            function_line_number = start_line_number + ix_line
             function_def = {
                 'function': {
                     'name': match_function_begin.group('name'),
@@ -404,6 +406,10 @@ def parse_script(script_text, start_line_number=1):
         def_ = label_def[def_key]
         raise BareScriptParserError(f"Missing end{def_key} statement", def_['line'], 1, def_['lineNumber'])
 
+    # Dangling function definition?
+    if function_def is not None:
+        raise BareScriptParserError('Missing endfunction statement', function_line, 1, function_line_number)
+
     return script
 
 
-- 
2.43.0


From b2b02f1c6b2a1c0a668b0c9261217882fc1a7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 22/39] fix: a syntax error in a block statement's expression
 reports its line

---
 src/bare_script/parser.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 48701b5..a69458d 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -130,7 +130,7 @@ def parse_script(script_text, start_line_number=1):
             ifthen = {
                 'jump': {
                     'label': f"__bareScriptIf{label_index}",
-                    'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_begin.group('expr'))}}
+                    'expr': {'unary': {'op': '!', 'expr': _parse_statement_expression(match_if_begin, 'expr', line, start_line_number + ix_line)}}
                 },
                 'done': f"__bareScriptDone{label_index}",
                 'hasElse': False,
@@ -161,7 +161,7 @@ def parse_script(script_text, start_line_number=1):
             prev_label = ifthen['jump']['label']
             ifthen['jump'] = {
                 'label': f"__bareScriptIf{label_index}",
-                'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_else_if.group('expr'))}}
+                'expr': {'unary': {'op': '!', 'expr': _parse_statement_expression(match_if_else_if, 'expr', line, start_line_number + ix_line)}}
             }
             label_index += 1
 
@@ -219,7 +219,7 @@ def parse_script(script_text, start_line_number=1):
                 'loop': f'__bareScriptLoop{label_index}',
                 'continue': f'__bareScriptLoop{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': parse_expression(match_while_begin.group('expr')),
+                'expr': _parse_statement_expression(match_while_begin, 'expr', line, start_line_number + ix_line),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -268,7 +268,7 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the for-each header statements
             statements.extend([
-                {'expr': {'name': foreach['values'], 'expr': parse_expression(match_for_begin.group('values'))}},
+                {'expr': {'name': foreach['values'], 'expr': _parse_statement_expression(match_for_begin, 'values', line, start_line_number + ix_line)}},
                 {'expr': {
                     'name': foreach['length'],
                     'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']}]}}
@@ -413,6 +413,14 @@ def parse_script(script_text, start_line_number=1):
     return script
 
 
+# Helper function to parse the expression within a statement's line
+def _parse_statement_expression(match, group, line, line_number):
+    try:
+        return parse_expression(match.group(group))
+    except BareScriptParserError as error:
+        raise BareScriptParserError(error.error, line, match.start(group) + error.column_number, line_number)
+
+
 # BareScript regex
 _R_SCRIPT_LINE_SPLIT = re.compile(r'\r?\n')
 _R_SCRIPT_CONTINUATION = re.compile(r'\\\s*$')
-- 
2.43.0


From a8c963931d61ad3dbdb351db684e548b58b7aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 23/39] fix: continue in a while loop re-tests the loop
 condition

---
 src/bare_script/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index a69458d..a6839f6 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -223,6 +223,9 @@ def parse_script(script_text, start_line_number=1):
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
+            # Continue re-tests the loop expression (unless it is always true)
+            if whiledo['expr'] != {'variable': 'true'}:
+                whiledo['continue'] = f'__bareScriptContinue{label_index}'
             label_defs.append({'while': whiledo})
             label_index += 1
 
@@ -244,6 +247,8 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('No matching while statement', line, 1, start_line_number + ix_line)
 
             # Add the while-do footer statements
+            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop']:
+                statements.append({'label': whiledo['continue']})
             statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})
             statements.append({'label': whiledo['done']})
             continue
-- 
2.43.0


From d89525dcfb482c5d6c80d474e18e80cd9a8683e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 24/39] fix: datetimeMillisecond is the millisecond part of the
 datetime (never 1000)

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 9019870..02e22fd 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -573,7 +573,7 @@ _DATETIMEISO_PARSE_ARGS = value_args_model([
 # $return: The millisecond
 def _datetime_millisecond(args, unused_options):
     datetime_, = value_args_validate(_DATETIME_MILLISECOND_ARGS, args)
-    return int(value_round_number(value_normalize_datetime(datetime_).microsecond / 1000, 0))
+    return value_normalize_datetime(datetime_).microsecond // 1000
 
 _DATETIME_MILLISECOND_ARGS = value_args_model([
     {'name': 'datetime', 'type': 'datetime'}
-- 
2.43.0


From 8f5a947d0b754a4e71aa0ed8682b8f96059507a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 25/39] fix: dataParseCSV keeps line breaks within quoted cells

---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 02e22fd..dbb5735 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -9,6 +9,7 @@ import calendar
 import csv
 import datetime
 import functools
+import io
 import json
 import math
 import random
@@ -437,7 +438,7 @@ def _data_parse_csv(args, unused_options):
             continue
         if value_type(arg) != 'string':
             return None
-        lines.extend(arg.splitlines())
+        lines.extend(io.StringIO(arg, newline=''))
 
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
-- 
2.43.0


From 0786f0625bdf7956f05be7688369af94aaf37740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 26/39] fix: surplus CSV cells do not add a nameless field to
 the row

---
 src/bare_script/library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index dbb5735..120475e 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -443,6 +443,10 @@ def _data_parse_csv(args, unused_options):
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
 
+    # Ignore surplus cells
+    for row in data:
+        row.pop(None, None)
+
     # Validate the data (as CSV)
     validate_data(data, True)
     return data
-- 
2.43.0


From 6afea7f4c26cfc2a4d3505181a5bbd54d3d758d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 27/39] fix: data rows are grouped and joined by equal values,
 not by equal JSON text

---
 src/bare_script/data.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index d2d482b..6c19a4a 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -13,7 +13,8 @@ import statistics
 from schema_markdown import parse_schema_markdown, validate_type
 
 from .parser import parse_expression
-from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number
+from .value import value_boolean, value_compare, value_json, value_normalize_datetime, value_parse_datetime, value_parse_number, \
+    value_type
 
 
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
@@ -145,6 +146,20 @@ def validate_data(data, csv=False):
     return types
 
 
+# Helper to get a value's hashable key - two values have the same key if and only if they compare equal
+def _value_key(value):
+    type_ = value_type(value)
+    if type_ == 'array':
+        return type_, tuple(_value_key(item) for item in value)
+    elif type_ == 'object':
+        return type_, tuple((key, _value_key(value[key])) for key in sorted(value))
+    elif type_ == 'datetime':
+        return type_, value_normalize_datetime(value)
+    elif type_ in ('boolean', 'number', 'string'):
+        return type_, value
+    return type_, None
+
+
 def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=False, variables=None, options=None):
     """
     Join two data arrays
@@ -206,7 +221,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(_evaluate_row(right_expression, eval_options, right_row, options))
+        category_key = _value_key(_evaluate_row(right_expression, eval_options, right_row, options))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -214,7 +229,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(_evaluate_row(left_expression, eval_options, left_row, options))
+        category_key = _value_key(_evaluate_row(left_expression, eval_options, left_row, options))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -325,7 +340,7 @@ def aggregate_data(data, aggregation):
         category_values = [row.get(category) for category in categories] if categories is not None else None
 
         # Get or create the aggregate row
-        row_key = value_json(category_values) if category_values is not None else ''
+        row_key = _value_key(category_values) if category_values is not None else ''
         if row_key in category_rows:
             aggregate_row = category_rows[row_key]
         else:
@@ -466,7 +481,7 @@ def top_data(data, count, category_fields=None):
     category_rows = {}
     category_order = []
     for row in data:
-        category_key = '' if category_fields is None else value_json([row.get(field) for field in category_fields])
+        category_key = '' if category_fields is None else _value_key([row.get(field) for field in category_fields])
         if category_key not in category_rows:
             category_rows[category_key] = []
             category_order.append(category_key)
-- 
2.43.0


From 9e42f6b5cd85d8e1c4158fafed8a980b7041a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 28/39] fix: diffLines reports identical lines

---
 src/bare_script/include/diff.bare | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/include/diff.bare b/src/bare_script/include/diff.bare
index 39ba415..61e1b85 100644
--- a/src/bare_script/include/diff.bare
+++ b/src/bare_script/include/diff.bare
@@ -99,7 +99,7 @@ function diffLines(left, right):
             ixRight = ixRight + 1
         endwhile
         if identicalLines:
-            arrayPush(objectdiffs, objectNew('type', 'Identical', 'lines', identicalLines))
+            arrayPush(diffs, objectNew('type', 'Identical', 'lines', identicalLines))
             continue
         endif
 
-- 
2.43.0


From 4c046560e243815aa137c188d5cfdacb111010fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 29/39] fix: datetimeNew does not loop over an out-of-range
 number of months

---
 src/bare_script/library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 120475e..6982fd1 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -664,12 +664,16 @@ def _datetime_new(args, unused_options):
             month = month - 1 if month != 1 else 12
             _, month_days = calendar.monthrange(int(year), int(month))
             day += month_days
+            if year < datetime.MINYEAR:
+                raise OverflowError('date value out of range')
     elif day > 28:
         _, month_days = calendar.monthrange(int(year), int(month))
         while day > month_days:
             day -= month_days
             year = year if month != 12 else year + 1
             month = month + 1 if month != 12 else 1
+            if year > datetime.MAXYEAR:
+                raise OverflowError('date value out of range')
             _, month_days = calendar.monthrange(int(year), int(month))
 
     # Return the datetime
-- 
2.43.0


From b4dee58fba2e9694f0c0de7d281771e0978ef162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 30/39] fix: rounding to a huge number of digits does not
 compute a huge integer

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 502048a..834e3b1 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -453,7 +453,7 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** int(digits)
+    multiplier = 10 ** float(digits)
     return int(float(value) * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
-- 
2.43.0


From 797da9fe1ee4efbfb4a85e43dd3a0a0cde9acd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 31/39] fix: a function with a one-letter name can be called

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index a6839f6..12c3dd5 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -617,7 +617,7 @@ def _parse_unary_expression(expr_text):
 # BareScript expression regex
 _R_EXPR_BINARY_OP = re.compile(r'^\s*(\*\*|\*|\/|%|\+|-|<=|<|>=|>|==|!=|&&|\|\|)')
 _R_EXPR_UNARY_OP = re.compile(r'^\s*(!|-)')
-_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w+)\s*\(')
+_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w*)\s*\(')
 _R_EXPR_FUNCTION_SEPARATOR = re.compile(r'^\s*,')
 _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
-- 
2.43.0


From ef2d24fde0b22840f86ddc75b01d34e1f90593cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 32/39] fix: an include in a function resolves against the file
 that defines the function

---
 src/bare_script/runtime.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index b9f0b81..b48d9a0 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -42,12 +42,12 @@ def execute_script(script, options=None):
     # Execute the script
     options['statementCount'] = 0
     try:
-        return _execute_script_helper(script['statements'], options, None)
+        return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))
     except RecursionError:
         raise BareScriptRuntimeError('Maximum recursion depth exceeded') # pylint: disable=raise-missing-from
 
 
-def _execute_script_helper(statements, options, locals_):
+def _execute_script_helper(statements, options, locals_, url_fn):
     globals_ = options['globals']
 
     # Iterate each script statement
@@ -99,14 +99,13 @@ def _execute_script_helper(statements, options, locals_):
 
         # Function?
         elif statement_key == 'function':
-            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'])
+            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)
 
         # Include?
         elif statement_key == 'include':
             system_prefix = options.get('systemPrefix')
             fetch_fn = options.get('fetchFn')
             log_fn = options.get('logFn')
-            url_fn = options.get('urlFn')
             for include in statement['include']['includes']:
                 url = include['url']
 
@@ -142,7 +141,7 @@ def _execute_script_helper(statements, options, locals_):
                 # Execute the include script
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
-                _execute_script_helper(script['statements'], include_options, None)
+                _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 options['statementCount'] = include_options['statementCount']
 
         # Increment the statement counter
@@ -151,8 +150,8 @@ def _execute_script_helper(statements, options, locals_):
     return None
 
 
-# Runtime script function implementation
-def _script_function(function, args, options):
+# Runtime script function implementation - includes resolve relative to the file that defines the function
+def _script_function(function, url_fn, args, options):
     func_locals = {}
     func_args = function.get('args')
     if func_args is not None:
@@ -165,7 +164,7 @@ def _script_function(function, args, options):
                 func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]
             else:
                 func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
-    return _execute_script_helper(function['statements'], options, func_locals)
+    return _execute_script_helper(function['statements'], options, func_locals, url_fn)
 
 
 def evaluate_expression(expr, options=None, locals_=None, builtins=True):
-- 
2.43.0


From c11a80ab7cace49b5d841a116947131c6ff2f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:51 +0000
Subject: [PATCH 33/39] fix: convert datetimes within a day of the datetime
 limits to and from ISO text

---
 src/bare_script/value.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 834e3b1..95c78ba 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -71,7 +71,7 @@ def value_string(value):
             return str(int(value))
         return R_NUMBER_CLEANUP.sub('', str(value))
     elif isinstance(value, datetime.date):
-        iso = value_normalize_datetime(value).astimezone().isoformat()
+        iso = _datetime_to_aware(value_normalize_datetime(value)).isoformat()
         match_microsecond = _R_DATETIME_MICROSECOND.search(iso)
         if match_microsecond is not None:
             microsecond_begin, microsecond_end = match_microsecond.span()
@@ -517,7 +517,7 @@ def value_parse_datetime(text):
             day = int(m_date.group('day'))
             return datetime.datetime(year, month, day)
         elif _R_DATETIME.match(text):
-            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+            result = _datetime_to_local(datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)))
             return result.replace(microsecond=(result.microsecond // 1000) * 1000)
     except (ValueError, OverflowError):
         # Not a valid calendar date/time
@@ -542,6 +542,28 @@ def value_normalize_datetime(value):
 
     if isinstance(value, datetime.datetime):
         if value.tzinfo is not None:
-            return value.astimezone().replace(tzinfo=None)
+            return _datetime_to_local(value)
         return value
     return datetime.datetime(value.year, value.month, value.day)
+
+
+# Helper to make a naive (local time) datetime aware of the local time zone
+def _datetime_to_aware(value):
+    try:
+        return value.astimezone()
+    except (ValueError, OverflowError):
+        return value.replace(tzinfo=_datetime_limit_tzinfo(value))
+
+
+# Helper to make an aware datetime a naive (local time) datetime
+def _datetime_to_local(value):
+    try:
+        return value.astimezone().replace(tzinfo=None)
+    except (ValueError, OverflowError):
+        naive = value.replace(tzinfo=None)
+        return naive + (_datetime_limit_tzinfo(naive).utcoffset(None) - value.utcoffset())
+
+
+# Helper to get the local time zone within a day of the datetime limits, where datetime's own conversions overflow
+def _datetime_limit_tzinfo(naive):
+    return (naive + datetime.timedelta(days=2 if naive.year == datetime.MINYEAR else -2)).astimezone().tzinfo
-- 
2.43.0


From 4fb6d633c7ffe586d95e2119ad75611e3c007531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:11 +0000
Subject: [PATCH 34/39] fix: lint functions nested in function bodies

---
 src/bare_script/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bare_script/model.py b/src/bare_script/model.py
index ca872d9..6c1eef2 100644
--- a/src/bare_script/model.py
+++ b/src/bare_script/model.py
@@ -361,6 +361,11 @@ def lint_script(script):
                 if label not in fn_labels_defined:
                     warnings.append(f'Unknown label "{label}" in function "{function_name}" (index {fn_labels_used[label]})')
 
+            # Lint nested functions, if any
+            nested = [fn_stmt if 'function' in fn_stmt else {'return': {}} for fn_stmt in statement['function']['statements']]
+            if any('function' in fn_stmt for fn_stmt in nested):
+                warnings.extend(lint_script({'statements': nested}))
+
         # Global expression statement checks
         elif statement_key == 'expr':
             # Pointless global expression statement?
-- 
2.43.0


From f3f725a7015eb6ae55252610efb2c630279f3129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:39 +0000
Subject: [PATCH 35/39] fix: whitespace after a return without a value is not
 an expression

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 12c3dd5..0f0d245 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -439,7 +439,7 @@ _R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\s*,\s*')
 _R_SCRIPT_FUNCTION_END = re.compile(r'^\s*endfunction\s*$')
 _R_SCRIPT_LABEL = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*:\s*$')
 _R_SCRIPT_JUMP = re.compile(r'^(?P<jump>\s*(?:jump|jumpif\s*\((?P<expr>.+)\)))\s+(?P<name>[A-Za-z_]\w*)\s*$')
-_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>.+))?)\s*$')
+_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>\S.*))?)\s*$')
 _R_SCRIPT_INCLUDE = re.compile(r'^\s*include\s+(?P<delim>\')(?P<url>(?:\\\'|[^\'])*)\'\s*$')
 _R_SCRIPT_INCLUDE_SYSTEM = re.compile(r'^\s*include\s+(?P<delim><)(?P<url>[^>]*)>\s*$')
 _R_SCRIPT_IF_BEGIN = re.compile(r'^\s*if\s+(?P<expr>.+)\s*:\s*$')
-- 
2.43.0


From 425479569f6359004cff62b628334d6b46540b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:26 +0000
Subject: [PATCH 36/39] fix: a function model with lastArgArray false binds its
 first parameter to a value, not an array

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index b48d9a0..ac4ff02 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -157,7 +157,7 @@ def _script_function(function, url_fn, args, options):
     if func_args is not None:
         args_length = len(args)
         func_args_length = len(func_args)
-        ix_arg_last = function.get('lastArgArray', None) and (func_args_length - 1)
+        ix_arg_last = func_args_length - 1 if function.get('lastArgArray') else None
         for ix_arg in range(func_args_length):
             arg_name = func_args[ix_arg]
             if ix_arg < args_length:
-- 
2.43.0


From 4711dce53ca0203d4a07f5e415d34d9efe769956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:22 +0000
Subject: [PATCH 37/39] fix: quoted text with backslashes is read in linear
 time, and an escaped backslash ends a bracketed name

---
 src/bare_script/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 0f0d245..653c79c 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -623,12 +623,12 @@ _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
 _R_EXPR_GROUP_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_NUMBER = re.compile(r'^\s*([+-]?\d+(?:\.\d*)?(?:e[+-]\d+)?)')
-_R_EXPR_STRING = re.compile(r"^\s*'((?:\\\\|\\'|[^'])*)'")
+_R_EXPR_STRING = re.compile(r"^\s*'((?:\\\\|\\'|[^'\\]|\\(?!\\))*)'")
 _R_EXPR_STRING_ESCAPE = re.compile(r'\\([\\\'])')
-_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:\\\\|\\"|[^"])*)"')
+_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:\\\\|\\"|[^"\\]|\\(?!\\))*)"')
 _R_EXPR_STRING_DOUBLE_ESCAPE = re.compile(r'\\([\\"])')
 _R_EXPR_VARIABLE = re.compile(r'^\s*([A-Za-z_]\w*)')
-_R_EXPR_VARIABLE_EX = re.compile(r'^\s*\[\s*((?:\\\]|[^\]])+)\s*\]')
+_R_EXPR_VARIABLE_EX = re.compile(r'^\s*\[\s*((?:\\\\|\\\]|[^\]\\]|\\(?!\\))+)\s*\]')
 _R_EXPR_VARIABLE_EX_ESCAPE = re.compile(r'\\([\\\]])')
 
 
-- 
2.43.0


From 355ed0b023bdaff65d0851741157acdd5a66cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:49 +0000
Subject: [PATCH 38/39] fix: dataAggregate min and max of datetimes of
 different kinds (date, naive, with time zone) instead of failing

---
 src/bare_script/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 6c19a4a..2d86ab0 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -371,9 +371,9 @@ def aggregate_data(data, aggregation):
             elif func == 'count':
                 aggregate_row[field] = len(measure_values)
             elif func == 'max':
-                aggregate_row[field] = max(measure_values)
+                aggregate_row[field] = max(measure_values, key=functools.cmp_to_key(value_compare))
             elif func == 'min':
-                aggregate_row[field] = min(measure_values)
+                aggregate_row[field] = min(measure_values, key=functools.cmp_to_key(value_compare))
             elif func == 'sum':
                 aggregate_row[field] = sum(measure_values)
             elif func == 'stddev':
-- 
2.43.0


From ef5249f8a5a4626d1bf1076b699864d7ef93745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:09 +0000
Subject: [PATCH 39/39] fix: schemaTypeModel gives the script its own copy of
 the type model

A script that changed the result changed the type model of the process, so
executing the same model again with identical globals gave another result.
---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 6982fd1..6591aa0 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -6,6 +6,7 @@ The BareScript library
 """
 
 import calendar
+import copy
 import csv
 import datetime
 import functools
@@ -1454,7 +1455,7 @@ _SCHEMA_PARSE_EX_ARGS = value_args_model([
 # $doc: Get the [Schema Markdown Type Model](https://craigahobbs.github.io/schema-markdown-doc/doc/#var.vName='Types')
 # $return: The [Schema Markdown Type Model](https://craigahobbs.github.io/schema-markdown-doc/doc/#var.vName='Types')
 def _schema_type_model(unused_args, unused_options):
-    return TYPE_MODEL
+    return copy.deepcopy(TYPE_MODEL)
 
 
 # $function: schemaValidate
-- 
2.43.0

