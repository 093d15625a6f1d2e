From 0c4bb0fa99b4a5d94ed1e222abe71202f30eb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 001/112] fix: keep what follows a prefixed string literal

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 039d70c..3d9ccfd 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -750,6 +750,7 @@ class ExpressionParser:
                 expression = StringParser.parse(
                     tokens, start_quote=next_token, prefix=main_token
                 )
+                next_token = next(tokens, None)
             else:
                 expression = Column(main_token)
 
@@ -912,7 +913,6 @@ class ExpressionParser:
         if (
             next_token is not None
             and next_token != ")"
-            and not (next_token in String.QUOTES and isinstance(expression, String))
             and next_token != ";"
             and lower(next_token) not in until_one_of
             and can_alias
-- 
2.43.0


From eabefb192bad66c2196d0c9394b4e14d85224b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:25 +0000
Subject: [PATCH 002/112] fix: do not split the select list of a bracketed
 subquery at its commas

---
 sqlvalidator/grammar/lexer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 3d9ccfd..f939ac3 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -528,6 +528,7 @@ class ExpressionListParser:
             next_token = next(tokens, None)
             if next_token is None or (
                 next_token == ","
+                and lower(expression_tokens[0]) != "select"
                 and count_parenthesis == 0
                 and count_square_brackets == 0
                 and in_string is False
-- 
2.43.0


From b94ec16af71c017525f5692863a7cfe4b0793e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 003/112] fix: format nested conditions, aliases and subqueries
 with transform, not str

---
 sqlvalidator/grammar/sql.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d2c3701..cf54a7c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -58,7 +58,7 @@ class SelectStatement:
             statement_str += " DISTINCT"
             if self.select_distinct_on:
                 statement_str += " ON ({})".format(
-                    ", ".join(map(str, self.select_distinct_on))
+                    ", ".join(map(transform, self.select_distinct_on))
                 )
 
         if len(self.expressions) == 1:
@@ -291,9 +291,9 @@ class GroupByClause(Expression):
 
     def __str__(self):
         if len(self.args) > 1:
-            group_by_str = "\n{}".format(",\n".join(map(str, self.args))).replace(
-                "\n", "\n "
-            )
+            group_by_str = "\n{}".format(
+                ",\n".join(map(transform, self.args))
+            ).replace("\n", "\n ")
         else:
             group_by_str = " " + transform(self.args[0])
         if self.rollup:
@@ -408,7 +408,7 @@ class OrderByItem(Expression):
         self.has_desc = has_desc
 
     def __str__(self):
-        order_by_item_str = str(self.value)
+        order_by_item_str = transform(self.value)
         if self.has_asc:
             order_by_item_str += " ASC"
         elif self.has_desc:
@@ -452,7 +452,7 @@ class LimitClause(Expression):
         if self.limit_all:
             limit_str = "ALL"
         else:
-            limit_str = str(self.value)
+            limit_str = transform(self.value)
         return limit_str
 
     def __repr__(self):
@@ -1099,7 +1099,7 @@ class ArithmaticOperator(Expression):
 
     def __str__(self):
         join_str = " {} ".format(self.operator)
-        return join_str.join(map(str, self.args))
+        return join_str.join(map(transform, self.args))
 
     def __repr__(self):
         return "<{} {}: {}>".format(
@@ -1589,7 +1589,7 @@ class Case(Expression):
             else:
                 when_then_str += " " + transformed_when + " "
 
-            when_then_str += f"THEN {then}"
+            when_then_str += f"THEN {transform(then)}"
             when_then_block_str.append(when_then_str)
 
         case_str += "\n ".join(when_then_block_str)
-- 
2.43.0


From d45a36371f2d70a862513cc1233ec914981a9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 004/112] fix: keep RESPECT NULLS and LIMIT 0 of ARRAY_AGG

---
 sqlvalidator/grammar/lexer.py | 2 +-
 sqlvalidator/grammar/sql.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index f939ac3..fc1eaaf 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -631,7 +631,7 @@ class ExpressionParser:
 
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens,
-                        stop_words=[")", "ignore", "respects", "order", "limit"],
+                        stop_words=[")", "ignore", "respect", "order", "limit"],
                         first_token=first_token,
                     )
                     column, _ = ExpressionParser.parse(
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index cf54a7c..5cdd52d 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -634,7 +634,7 @@ class ArrayAggFunctionCall(FunctionCall):
                 self.order_bys.transform(allow_linebreak=False)
             )
 
-        if self.limit:
+        if self.limit is not None:
             array_agg_str += " LIMIT {}".format(self.limit)
 
         return array_agg_str + ")"
-- 
2.43.0


From 395cdfe751550da6a071f97044238ae8d79ed81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 005/112] fix: keep what follows an index or a chained index

---
 sqlvalidator/grammar/lexer.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index fc1eaaf..0383415 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -801,11 +801,19 @@ class ExpressionParser:
             )
             next_token = next(tokens, None)
 
-        while next_token == ".":
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, until_one_of=until_one_of, is_chained_columns=True
-            )
-            expression = ChainedColumns(expression, right_hand)
+        while next_token and next_token in (".", "["):
+            if next_token == ".":
+                right_hand, next_token = ExpressionParser.parse(
+                    tokens, until_one_of=until_one_of, is_chained_columns=True
+                )
+                expression = ChainedColumns(expression, right_hand)
+            else:
+                argument_tokens, next_token = get_tokens_until_one_of(
+                    tokens, stop_words=["]"]
+                )
+                arguments = ExpressionListParser.parse(iter(argument_tokens))
+                expression = Index(expression, arguments)
+                next_token = next(tokens, None)
 
         if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:
             left_hand = expression
@@ -817,14 +825,6 @@ class ExpressionParser:
             )
             expression = ArithmaticOperator(symbol, left_hand, right_hand)
 
-        while next_token == "[":
-            argument_tokens, next_token = get_tokens_until_one_of(
-                tokens, stop_words=["]"]
-            )
-            arguments = ExpressionListParser.parse(iter(argument_tokens))
-            expression = Index(expression, arguments)
-            next_token = next(tokens, None)
-
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
-- 
2.43.0


From 9f4bfac5e0c0f910bb0a3b206bcf890478a3135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:44 +0000
Subject: [PATCH 006/112] fix: parse bitwise, || and % operators as operands of
 comparisons and chains

---
 sqlvalidator/grammar/lexer.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 0383415..3349137 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -815,7 +815,11 @@ class ExpressionParser:
                 expression = Index(expression, arguments)
                 next_token = next(tokens, None)
 
-        if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:
+        if (
+            next_token
+            and next_token in ("+", "-", "*", "/", "%")
+            and not is_chained_columns
+        ):
             left_hand = expression
             symbol = next_token
             right_hand, next_token = ExpressionParser.parse(
@@ -824,6 +828,12 @@ class ExpressionParser:
                 until_one_of=until_one_of,
             )
             expression = ArithmaticOperator(symbol, left_hand, right_hand)
+        elif next_token in BitwiseOperation.OPERATORS and not is_chained_columns:
+            operator = next_token
+            right_hand, next_token = ExpressionParser.parse(
+                tokens, is_right_hand=True, until_one_of=until_one_of
+            )
+            expression = BitwiseOperation(expression, operator, right_hand)
 
         if is_right_hand or is_chained_columns:
             return expression, next_token
@@ -867,12 +877,6 @@ class ExpressionParser:
                 right_hand_right,
             )
             expression = Condition(expression, symbol, right_hand)
-        elif next_token in BitwiseOperation.OPERATORS:
-            operator = next_token
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            expression = BitwiseOperation(expression, operator, right_hand)
 
         if lower(next_token) in BooleanCondition.PREDICATES:
             left_hand = expression
-- 
2.43.0


From 442160c2f51862aabbbf712181c5e71293626ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 007/112] fix: split !=, |, & and ^ from their operands when
 written without spaces

---
 sqlvalidator/grammar/tokeniser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index ffb9402..37bdde5 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -13,6 +13,10 @@ KEPT_SPLIT_TOKENS = (
     "-",
     "*",
     "/",
+    "|",
+    "&",
+    "^",
+    "!=",
     "=",
     "<",
     ">",
-- 
2.43.0


From db6782da99034a6ffc30f6edf462ebcf6b11d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 008/112] fix: keep the operand of NOT LIKE, NOT CONTAINS and
 NOT BETWEEN

---
 sqlvalidator/grammar/lexer.py | 29 ++++++++++-------------------
 sqlvalidator/grammar/sql.py   |  2 +-
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 3349137..0d8a9bd 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -838,7 +838,7 @@ class ExpressionParser:
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
-        if lower(next_token) in Condition.PREDICATES:
+        if lower(next_token) in Condition.PREDICATES or lower(next_token) == "between":
             first_token = None
             symbol = next_token
             if lower(next_token) == "is":
@@ -849,8 +849,8 @@ class ExpressionParser:
                     first_token = next_next_token
             elif lower(next_token) == "not":
                 next_next_token = next(tokens)
-                if lower(next_next_token) == "in":
-                    symbol = "not in"
+                if lower(next_next_token) in ("in", "like", "contains", "between"):
+                    symbol = "not " + lower(next_next_token)
                 else:
                     first_token = next_next_token
 
@@ -860,22 +860,13 @@ class ExpressionParser:
                 until_one_of=until_one_of,
                 first_token=first_token,
             )
-            expression = Condition(expression, symbol, right_hand)
-        elif lower(next_token) == "between":
-            symbol = next_token
-            right_hand_left, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            if lower(next_token) != "and":
-                raise ParsingError("expected AND")
-            right_hand_right, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            right_hand = BooleanCondition(
-                "and",
-                right_hand_left,
-                right_hand_right,
-            )
+            if lower(symbol) in ("between", "not between"):
+                if lower(next_token) != "and":
+                    raise ParsingError("expected AND")
+                right_hand_right, next_token = ExpressionParser.parse(
+                    tokens, is_right_hand=True, until_one_of=until_one_of
+                )
+                right_hand = BooleanCondition("and", right_hand, right_hand_right)
             expression = Condition(expression, symbol, right_hand)
 
         if lower(next_token) in BooleanCondition.PREDICATES:
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5cdd52d..c9c9cc9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1437,7 +1437,7 @@ class Condition(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         errors += self.value.validate(known_fields)
-        if self.predicate.lower() == "between":
+        if self.predicate.lower() in ("between", "not between"):
             errors += self.right_hand.validate(known_fields, is_between_predicate=True)
         else:
             errors += self.right_hand.validate(known_fields)
-- 
2.43.0


From 4eb575f779ea7cab7628313fc264540e0e3fb12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 009/112] fix: split string literals from left to right, with
 escaped and doubled quotes

---
 sqlvalidator/grammar/tokeniser.py | 55 +++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 37bdde5..009cb77 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -140,17 +140,40 @@ def merge_stream(s, goals):
             yield next_element
 
 
-def _split_on_string_token(token: str, value: str):
-    split_result = split_with_sep(value, token)
-    in_str = False
-    for elem in split_result:
-        if elem == token:
-            in_str = not in_str
-            yield elem
-        elif in_str is True:
-            yield elem
-        else:
-            yield from split_tokens(elem)
+def _split_on_literals(value: str):
+    """
+    Separate the string literals (and quoted names) from the rest of the text,
+    from left to right: a quote inside of another literal does not delimit anything.
+    """
+    start = index = 0
+    while index < len(value):
+        quote = value[index]
+        if quote not in STRING_SPLIT_TOKENS:
+            index += 1
+            continue
+
+        if start < index:
+            yield from split_tokens(value[start:index])
+        start = index = index + 1
+        while index < len(value):
+            if value[index] == "\\":
+                index += 2
+            elif value[index] != quote:
+                index += 1
+            elif value[index + 1 : index + 2] == quote:
+                index += 2  # a doubled quote stands for the quote itself
+            else:
+                break
+
+        yield quote
+        if start < index:
+            yield value[start:index]
+        if index < len(value):
+            yield quote
+        start = index = index + 1
+
+    if start < len(value):
+        yield from split_tokens(value[start:])
 
 
 def _split_on_whitespace_token(token: str, value: str):
@@ -168,13 +191,9 @@ def _split_on_kept_token(token: str, value: str):
 
 
 def split_tokens(value: str):
-    for string_token in sorted(
-        STRING_SPLIT_TOKENS,
-        key=lambda token: value.index(token) if token in value else (len(value) + 1),
-    ):
-        if string_token in value:
-            yield from _split_on_string_token(string_token, value)
-            return
+    if any(string_token in value for string_token in STRING_SPLIT_TOKENS):
+        yield from _split_on_literals(value)
+        return
 
     for whitespace_token in WHITESPACE_SPLIT_TOKENS:
         if whitespace_token in value:
-- 
2.43.0


From 7a2e7a12324ff59b20f42538a4243b30449d8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 010/112] fix: do not read the content of string literals as
 syntax, split on carriage returns

---
 sqlvalidator/grammar/lexer.py     | 12 +++++++-----
 sqlvalidator/grammar/tokeniser.py | 28 ++++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 0d8a9bd..a142e2e 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -48,6 +48,7 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
     get_tokens_until_one_of,
@@ -511,10 +512,13 @@ class ExpressionListParser:
         expression_tokens = []
         count_parenthesis = 0
         count_square_brackets = 0
-        in_string = False
+        quote = None
         while next_token is not None:
             expression_tokens.append(next_token)
-            if next_token == "(":
+            quote = get_open_quote(quote, next_token)
+            if quote is not None:
+                pass
+            elif next_token == "(":
                 count_parenthesis += 1
             elif next_token == ")":
                 count_parenthesis -= 1
@@ -522,8 +526,6 @@ class ExpressionListParser:
                 count_square_brackets += 1
             elif next_token == "]":
                 count_square_brackets -= 1
-            elif next_token in String.QUOTES:
-                in_string = not in_string
 
             next_token = next(tokens, None)
             if next_token is None or (
@@ -531,7 +533,7 @@ class ExpressionListParser:
                 and lower(expression_tokens[0]) != "select"
                 and count_parenthesis == 0
                 and count_square_brackets == 0
-                and in_string is False
+                and quote is None
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 009cb77..eaa11ee 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -1,7 +1,7 @@
 from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
-WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\t")
+WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\r", "\t")
 KEPT_SPLIT_TOKENS = (
     ",",
     ";",
@@ -29,13 +29,28 @@ def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
 
+def get_open_quote(quote: Optional[str], token: str) -> Optional[str]:
+    """
+    The quote of the string literal that is open after reading the token
+    """
+    if quote is None:
+        return token if token in STRING_SPLIT_TOKENS else None
+    return None if token == quote else quote
+
+
 def get_tokens_until_closing_parenthesis(tokens, first_token=None):
     argument_tokens = []
     next_token = first_token or next(tokens, None)
     count_parenthesis = 0
-    while next_token is not None and not (next_token == ")" and count_parenthesis == 0):
+    quote = None
+    while next_token is not None and not (
+        next_token == ")" and count_parenthesis == 0 and quote is None
+    ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        quote = get_open_quote(quote, next_token)
+        if quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
@@ -52,8 +67,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
     count_case_expr = 0 if first_token != "case" else 1
+    quote = get_open_quote(None, first_token)
     while next_token is not None and not (
         lower(next_token) in stop_words
+        and quote is None
         and count_parenthesis <= 0
         and count_square_brackets <= 0
         and count_case_expr <= 0
@@ -63,7 +80,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
         )
     ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        quote = get_open_quote(quote, next_token)
+        if quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
-- 
2.43.0


From fc40a9e5a100d12ab0464d46314ace50eec48700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 011/112] fix: recognise a leading upper-case CASE when looking
 for a stop word

---
 sqlvalidator/grammar/tokeniser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index eaa11ee..c915ea5 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -66,7 +66,7 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     next_token = next(tokens, None)
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
-    count_case_expr = 0 if first_token != "case" else 1
+    count_case_expr = 0 if lower(first_token) != "case" else 1
     quote = get_open_quote(None, first_token)
     while next_token is not None and not (
         lower(next_token) in stop_words
-- 
2.43.0


From 89446a31589946e433031c0ba89cac0c42746d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 012/112] fix: do not indent the lines of a multi-line string
 literal

---
 sqlvalidator/grammar/sql.py   | 11 ++++++++++-
 sqlvalidator/sql_formatter.py |  3 ++-
 sqlvalidator/sql_validator.py |  3 ++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c9c9cc9..5997619 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -4,6 +4,9 @@ from typing import Any, List, Optional, Set
 from sqlvalidator.grammar.tokeniser import lower
 
 DEFAULT_LINE_LENGTH = 88
+# Stands for a line break inside of a literal while its surroundings are laid out:
+# it must neither be indented nor count as a line break of the layout.
+LITERAL_LINE_BREAK = "\udc0a"
 
 
 def transform(obj: Any) -> str:
@@ -12,6 +15,10 @@ def transform(obj: Any) -> str:
     return str(obj)
 
 
+def format_statement(statement: Any) -> str:
+    return transform(statement).replace(LITERAL_LINE_BREAK, "\n")
+
+
 @dataclass
 class _FieldInfo:
     name: str
@@ -888,7 +895,9 @@ class String(Expression):
 
     def __str__(self):
         return "{prefix}{quotes}{value}{quotes}".format(
-            quotes=self.quotes, value=self.value, prefix=self.prefix or ""
+            quotes=self.quotes,
+            value=self.value.replace("\n", LITERAL_LINE_BREAK),
+            prefix=self.prefix or "",
         )
 
     def __repr__(self):
diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index e4702de..a3a8465 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -1,6 +1,7 @@
 from sqlvalidator.grammar.lexer import SQLStatementParser
+from sqlvalidator.grammar.sql import format_statement
 from sqlvalidator.grammar.tokeniser import to_tokens
 
 
 def format_sql(sql_string: str) -> str:
-    return SQLStatementParser.parse(to_tokens(sql_string)).transform()
+    return format_statement(SQLStatementParser.parse(to_tokens(sql_string)))
diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index fafc4af..6b59695 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -1,6 +1,7 @@
 from typing import List
 
 from sqlvalidator.grammar.lexer import ParsingError, SQLStatementParser
+from sqlvalidator.grammar.sql import format_statement
 from sqlvalidator.grammar.tokeniser import to_tokens
 
 
@@ -18,7 +19,7 @@ class SQLQuery:
         return self._sql_query
 
     def format(self) -> str:
-        return self.sql_query.transform()
+        return format_statement(self.sql_query)
 
     def is_valid(self) -> bool:
         if not self.validated:
-- 
2.43.0


From 6c7649a19884034c31e9fe1786ff596d5420afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:39 +0000
Subject: [PATCH 013/112] fix: keep number literals as they are written

---
 sqlvalidator/grammar/lexer.py     |  9 +++++----
 sqlvalidator/grammar/sql.py       |  6 ++++--
 sqlvalidator/grammar/tokeniser.py | 14 ++++++++++++++
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index a142e2e..bc512fe 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -48,6 +48,7 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    FLOAT_PATTERN,
     get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
@@ -564,7 +565,7 @@ class ExpressionParser:
             expression = StringParser.parse(tokens, main_token)
         elif main_token.isdigit():
             expression = Integer(main_token)
-        elif main_token.replace(".", "").isdigit():
+        elif FLOAT_PATTERN.fullmatch(main_token):
             expression = Float(main_token)
         elif lower(main_token) in Boolean.BOOLEAN_VALUES:
             expression = Boolean(main_token)
@@ -736,14 +737,14 @@ class ExpressionParser:
                 )  # left item will not always be a column
                 next_token = next(tokens, None)
             elif next_token is not None and main_token == "-" and next_token.isdigit():
-                expression = Integer(-int(next_token))
+                expression = Integer("-" + next_token)
                 next_token = next(tokens, None)
             elif (
                 next_token is not None
                 and main_token == "-"
-                and next_token.replace(".", "").isdigit()
+                and FLOAT_PATTERN.fullmatch(next_token)
             ):
-                expression = Float(-float(next_token))
+                expression = Float("-" + next_token)
                 next_token = next(tokens, None)
             elif (
                 lower(main_token) in String.PREFIXES
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5997619..fe867ce 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -913,9 +913,10 @@ class String(Expression):
 class Integer(Expression):
     def __init__(self, value):
         super().__init__(int(value))
+        self.text = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.text
 
     @property
     def return_type(self):
@@ -925,9 +926,10 @@ class Integer(Expression):
 class Float(Expression):
     def __init__(self, value):
         super().__init__(float(value))
+        self.text = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.text
 
     @property
     def return_type(self):
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index c915ea5..0f467fa 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -1,3 +1,4 @@
+import re
 from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
@@ -22,6 +23,10 @@ KEPT_SPLIT_TOKENS = (
     ">",
     ".",
 )
+FLOAT_PATTERN = re.compile(r"(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
+EXPONENT_SPLIT_PATTERN = re.compile(
+    r"((?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.]))"
+)
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
 
 
@@ -220,6 +225,15 @@ def split_tokens(value: str):
             yield from _split_on_whitespace_token(whitespace_token, value)
             return
 
+    splitted = EXPONENT_SPLIT_PATTERN.split(value)
+    if len(splitted) > 1:
+        for index, elem in enumerate(splitted):
+            if index % 2 == 1:
+                yield elem
+            elif elem:
+                yield from split_tokens(elem)
+        return
+
     for kept_token in KEPT_SPLIT_TOKENS:
         if kept_token in value and value != kept_token:
             yield from _split_on_kept_token(kept_token, value)
-- 
2.43.0


From f517ec0d34cc7853cb3cbf0b3ac3acf926790574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 014/112] fix: parse the operand of a unary sign instead of
 taking it for an alias

---
 sqlvalidator/grammar/lexer.py | 15 ++++++++++++++-
 sqlvalidator/grammar/sql.py   | 26 ++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index bc512fe..93cb5fe 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -37,6 +37,7 @@ from sqlvalidator.grammar.sql import (
     Parenthesis,
     ReplaceClause,
     SelectStatement,
+    SignedExpression,
     String,
     Table,
     Type,
@@ -607,7 +608,11 @@ class ExpressionParser:
 
         # Expressions that need the next_token to be read
         if expression is None:
-            if next_token is not None and next_token == "(":
+            if (
+                next_token is not None
+                and next_token == "("
+                and main_token not in SignedExpression.SIGNS
+            ):
                 if lower(main_token) == "cast":
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens, stop_words=["as"]
@@ -746,6 +751,14 @@ class ExpressionParser:
             ):
                 expression = Float("-" + next_token)
                 next_token = next(tokens, None)
+            elif next_token is not None and main_token in SignedExpression.SIGNS:
+                signed_expression, next_token = ExpressionParser.parse(
+                    tokens,
+                    until_one_of=until_one_of,
+                    first_token=next_token,
+                    is_chained_columns=True,
+                )
+                expression = SignedExpression(main_token, signed_expression)
             elif (
                 lower(main_token) in String.PREFIXES
                 and next_token is not None
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index fe867ce..1149d6a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1137,6 +1137,32 @@ class Addition(ArithmaticOperator):
         super().__init__("+", *args)
 
 
+class SignedExpression(Expression):
+    SIGNS = ("-", "+")
+
+    def __init__(self, sign, expression):
+        super().__init__(expression)
+        self.sign = sign
+
+    def __str__(self):
+        expression_str = transform(self.value)
+        separator = " " if expression_str.startswith(self.SIGNS) else ""
+        return "{}{}{}".format(self.sign, separator, expression_str)
+
+    def __repr__(self):
+        return "<SignedExpression: {} {!r}>".format(self.sign, self.value)
+
+    def __eq__(self, other):
+        return super().__eq__(other) and self.sign == other.sign
+
+    def validate(self, known_fields):
+        return super().validate(known_fields) + self.value.validate(known_fields)
+
+    @property
+    def return_type(self):
+        return self.value.return_type
+
+
 class BitwiseOperation(Expression):
     OPERATORS = ("&", "|", "^", "||", "<<", ">>", "#")
 
-- 
2.43.0


From de49b33dba2192db7fba220d6984a9de39c06e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:39 +0000
Subject: [PATCH 015/112] fix: keep set operations wherever they follow a
 query, with UNION DISTINCT

---
 sqlvalidator/grammar/lexer.py | 63 +++++++++++++++++++++++++++++++----
 sqlvalidator/grammar/sql.py   | 33 +++++++++++++-----
 2 files changed, 81 insertions(+), 15 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 93cb5fe..33f0c91 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -74,7 +74,19 @@ class SQLStatementParser:
 
 
 class SelectStatementParser:
-    keywords = (";", "from", "where", "group", "having", "order", "limit", "offset")
+    keywords = (
+        "from",
+        "where",
+        "group",
+        "having",
+        "union",
+        "intersect",
+        "except",
+        "order",
+        "limit",
+        "offset",
+        ";",
+    )
 
     @classmethod
     def parse(cls, tokens):
@@ -100,14 +112,17 @@ class SelectStatementParser:
             first_expression_token = next_token
 
         expression_tokens, next_token = get_tokens_until_one_of(
-            tokens, cls.keywords, first_token=first_expression_token
+            tokens,
+            cls.keywords,
+            first_token=first_expression_token,
+            keep=[("*", "except")],
         )
         expressions = ExpressionListParser.parse(iter(expression_tokens))
 
         if lower(next_token) == "from":
             expression_tokens, next_token = get_tokens_until_one_of(
                 tokens,
-                ["where", "group", "having", "order", "limit", "offset", ";"],
+                cls.keywords[1:],
                 keep=[("with", "offset")],
             )
             from_statement = FromStatementParser.parse(iter(expression_tokens))
@@ -128,7 +143,7 @@ class SelectStatementParser:
             if not lower(next_token) == "by":
                 raise ParsingError("Missing BY after GROUP")
             expression_tokens, next_token = get_tokens_until_one_of(
-                tokens, ["having", "order", "limit", "offset", ";"]
+                tokens, cls.keywords[3:]
             )
             group_by_clause = GroupByParser.parse(iter(expression_tokens))
             group_by_clause.group_each_by = group_each_by
@@ -140,6 +155,13 @@ class SelectStatementParser:
         else:
             having_clause = None
 
+        set_operations = []
+        while lower(next_token) in CombinedQueries.SET_OPERATORS:
+            set_operator, right_query, next_token = SetOperationParser.parse(
+                tokens, next_token
+            )
+            set_operations.append((set_operator, right_query))
+
         if lower(next_token) == "order":
             next_token = next(tokens, None)
             if not lower(next_token) == "by":
@@ -175,6 +197,7 @@ class SelectStatementParser:
             where_clause=where_clause,
             group_by_clause=group_by_clause,
             having_clause=having_clause,
+            set_operations=set_operations,
             order_by_clause=order_by_clause,
             limit_clause=limit_clause,
             offset_clause=offset_clause,
@@ -412,13 +435,37 @@ class SetOperatorTypeParser:
         return " ".join(tokens).upper()
 
 
+class SetOperationParser:
+    @staticmethod
+    def parse(tokens, operator_token):
+        operator_tokens, next_token = get_tokens_until_not_in(
+            tokens,
+            CombinedQueries.SET_OPERATORS + ("distinct",),
+            first_token=operator_token,
+        )
+        set_operator = SetOperatorTypeParser.parse(iter(operator_tokens))
+        if lower(next_token) == "select":
+            # this query reads up to the end, including further set operations
+            return set_operator, SelectStatementParser.parse(tokens), None
+        if next_token == "(":
+            query_tokens = ["("] + get_tokens_until_closing_parenthesis(tokens) + [")"]
+            next_token = next(tokens, None)
+        else:
+            query_tokens, next_token = get_tokens_until_one_of(
+                tokens,
+                SelectStatementParser.keywords[4:],
+                first_token=next_token,
+            )
+        return set_operator, FromStatementParser.parse(iter(query_tokens)), next_token
+
+
 class WhereClauseParser:
     @staticmethod
     def parse(tokens):
         expression, next_token = ExpressionParser.parse(
             tokens,
             can_alias=False,
-            until_one_of=("group", "having", "order", "limit", "offset", ";"),
+            until_one_of=SelectStatementParser.keywords[2:],
         )
         return WhereClause(expression), next_token
 
@@ -443,7 +490,9 @@ class HavingClauseParser:
     @staticmethod
     def parse(tokens):
         expression, next_token = ExpressionParser.parse(
-            tokens, can_alias=False, until_one_of=["order", "limit", "offset", ";"]
+            tokens,
+            can_alias=False,
+            until_one_of=SelectStatementParser.keywords[4:],
         )
         return HavingClause(expression), next_token
 
@@ -900,7 +949,7 @@ class ExpressionParser:
                 right_alias.expression = expression
                 expression = right_alias
 
-        if lower(next_token) == "except":
+        if lower(next_token) == "except" and "except" not in until_one_of:
             opening_parenthesis = next(tokens, None)
             if opening_parenthesis != "(":
                 raise ParsingError("expected '('")
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 1149d6a..63ed38b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -39,6 +39,7 @@ class SelectStatement:
         where_clause=None,
         group_by_clause=None,
         having_clause=None,
+        set_operations=(),
         order_by_clause=None,
         limit_clause=None,
         offset_clause=None,
@@ -52,6 +53,7 @@ class SelectStatement:
         self.where_clause = where_clause
         self.group_by_clause = group_by_clause
         self.having_clause = having_clause
+        self.set_operations = list(set_operations)
         self.order_by_clause = order_by_clause
         self.limit_clause = limit_clause
         self.offset_clause = offset_clause
@@ -115,6 +117,11 @@ class SelectStatement:
         if self.having_clause:
             statement_str += "\nHAVING{}".format(transform(self.having_clause))
 
+        for set_operator, right_query in self.set_operations:
+            statement_str = CombinedQueries.combine(
+                statement_str, set_operator, right_query
+            )
+
         if self.order_by_clause:
             statement_str += "\nORDER BY{}".format(transform(self.order_by_clause))
 
@@ -132,7 +139,8 @@ class SelectStatement:
 
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
-        known_fields = known_fields or set()
+        outer_known_fields = known_fields or set()
+        known_fields = outer_known_fields
         if hasattr(self.from_statement, "known_fields"):
             known_fields = known_fields | self.from_statement.known_fields
 
@@ -146,6 +154,8 @@ class SelectStatement:
             errors += self.group_by_clause.validate(known_fields, self.expressions)
         if self.having_clause:
             errors += self.having_clause.validate(known_fields)
+        for _, right_query in self.set_operations:
+            errors += right_query.validate(outer_known_fields)
         if self.order_by_clause:
             errors += self.order_by_clause.validate(known_fields, self.expressions)
         if self.limit_clause:
@@ -202,6 +212,7 @@ class SelectStatement:
             and self.where_clause == other.where_clause
             and self.group_by_clause == other.group_by_clause
             and self.having_clause == other.having_clause
+            and self.set_operations == other.set_operations
             and self.order_by_clause == other.order_by_clause
             and self.limit_clause == other.limit_clause
             and self.offset_clause == other.offset_clause
@@ -216,6 +227,7 @@ class SelectStatement:
   Where: {!r}
   Group By: {!r}
   Having: {!r}
+  Set Operations: {!r}
   Order By: {!r}
   Limit: {!r}
   Offset: {!r}
@@ -231,6 +243,7 @@ class SelectStatement:
             self.where_clause,
             self.group_by_clause,
             self.having_clause,
+            self.set_operations,
             self.order_by_clause,
             self.limit_clause,
             self.offset_clause,
@@ -1382,14 +1395,18 @@ class CombinedQueries(Expression):
         self.right_query = right_query
 
     def __str__(self):
-        left_query = transform(self.left_query)
-        right_query = transform(self.right_query)
-        if isinstance(self.right_query, Table):
-            right_query = " " + right_query
-        else:
-            right_query = "\n" + right_query
+        return self.combine(
+            transform(self.left_query), self.set_operator, self.right_query
+        )
 
-        return "{}\n{}{}".format(left_query, self.set_operator.upper(), right_query)
+    @staticmethod
+    def combine(left_str, set_operator, right_query):
+        return "{}\n{}{}{}".format(
+            left_str,
+            set_operator.upper(),
+            " " if isinstance(right_query, Table) else "\n",
+            transform(right_query),
+        )
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 86521f9600ea45586480ee26141a0b5b2adbd147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:01 +0000
Subject: [PATCH 016/112] fix: keep DISTINCT and its operand in every function
 call

---
 sqlvalidator/grammar/lexer.py |  9 ++++++++-
 sqlvalidator/grammar/sql.py   | 15 +++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 33f0c91..ff1d2d4 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -748,13 +748,20 @@ class ExpressionParser:
                     expression = CountFunctionCall(*arguments, distinct=distinct)
                 else:
                     argument_tokens = get_tokens_until_closing_parenthesis(tokens)
+                    distinct = len(argument_tokens) > 1 and (
+                        lower(argument_tokens[0]) == "distinct"
+                    )
+                    if distinct:
+                        argument_tokens = argument_tokens[1:]
                     arguments_can_be_type = can_be_type or any(
                         lower(t) == "timestamp_trunc" for t in argument_tokens
                     )
                     arguments = ExpressionListParser.parse(
                         iter(argument_tokens), can_be_type=arguments_can_be_type
                     )
-                    expression = FunctionCall(main_token, *arguments)
+                    expression = FunctionCall(
+                        main_token, *arguments, distinct=distinct
+                    )
 
                 next_token = next(tokens, None)
                 if next_token and lower(next_token) == "filter":
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 63ed38b..7719e16 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -549,12 +549,15 @@ class WithStatement(Expression):
 
 
 class FunctionCall(Expression):
-    def __init__(self, function_name, *args):
+    def __init__(self, function_name, *args, distinct=False):
         self.function_name = function_name
         self.args = args
+        self.distinct = distinct
 
     def __str__(self):
         transformed_args = [transform(arg) for arg in self.args]
+        if self.distinct:
+            transformed_args[0] = "DISTINCT " + transformed_args[0]
         with_newlines = (
             any("\n" in arg for arg in transformed_args)
             or len(", ".join(transformed_args)) > DEFAULT_LINE_LENGTH
@@ -588,6 +591,7 @@ class FunctionCall(Expression):
             and self.function_name == other.function_name
             and len(self.args) == len(other.args)
             and all(a == o for a, o in zip(self.args, other.args))
+            and self.distinct == other.distinct
         )
 
 
@@ -605,8 +609,7 @@ class CastFunctionCall(FunctionCall):
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
-        super().__init__("count", *args)
-        self.distinct = distinct
+        super().__init__("count", *args, distinct=distinct)
 
     def __str__(self):
         return "{}({}{})".format(
@@ -615,9 +618,6 @@ class CountFunctionCall(FunctionCall):
             ", ".join(map(transform, self.args)),
         )
 
-    def __eq__(self, other):
-        return super().__eq__(other) and self.distinct == other.distinct
-
 
 class ArrayAggFunctionCall(FunctionCall):
     def __init__(
@@ -629,8 +629,7 @@ class ArrayAggFunctionCall(FunctionCall):
         order_bys=None,
         limit=None,
     ):
-        super().__init__("array_agg", column)
-        self.distinct = distinct
+        super().__init__("array_agg", column, distinct=distinct)
         assert not (ignore_nulls and respect_nulls)
         self.ignore_nulls = ignore_nulls
         self.respect_nulls = respect_nulls
-- 
2.43.0


From c070627f5bbccbc1d9b0b127c3829fa181e3a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 017/112] fix: keep NULLS FIRST and NULLS LAST of an ordering
 item

---
 sqlvalidator/grammar/lexer.py | 19 +++++++++++++++++--
 sqlvalidator/grammar/sql.py   |  8 +++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index ff1d2d4..0f9212c 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -516,19 +516,34 @@ class OrderByParser:
 class OrderByItemParser:
     @staticmethod
     def parse(tokens):
-        expression_tokens, next_token = get_tokens_until_one_of(tokens, ["asc", "desc"])
+        expression_tokens, next_token = get_tokens_until_one_of(
+            tokens, ["asc", "desc", "nulls"]
+        )
         expression, _ = ExpressionParser.parse(iter(expression_tokens))
         if lower(next_token) == "asc":
             has_asc = True
             has_desc = False
+            next_token = next(tokens, None)
         elif lower(next_token) == "desc":
             has_asc = False
             has_desc = True
+            next_token = next(tokens, None)
         else:
             has_asc = False
             has_desc = False
 
-        return OrderByItem(expression, has_asc=has_asc, has_desc=has_desc)
+        nulls_position = None
+        if lower(next_token) == "nulls":
+            nulls_position = lower(next(tokens, None))
+            if nulls_position not in ("first", "last"):
+                raise ParsingError("Missing FIRST or LAST after NULLS")
+
+        return OrderByItem(
+            expression,
+            has_asc=has_asc,
+            has_desc=has_desc,
+            nulls_position=nulls_position,
+        )
 
 
 class LimitClauseParser:
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 7719e16..b6fd692 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -422,10 +422,13 @@ class OrderByClause(Expression):
 
 
 class OrderByItem(Expression):
-    def __init__(self, expression, has_asc=False, has_desc=False):
+    def __init__(
+        self, expression, has_asc=False, has_desc=False, nulls_position=None
+    ):
         super().__init__(expression)
         self.has_asc = has_asc
         self.has_desc = has_desc
+        self.nulls_position = nulls_position
 
     def __str__(self):
         order_by_item_str = transform(self.value)
@@ -433,6 +436,8 @@ class OrderByItem(Expression):
             order_by_item_str += " ASC"
         elif self.has_desc:
             order_by_item_str += " DESC"
+        if self.nulls_position:
+            order_by_item_str += " NULLS {}".format(self.nulls_position.upper())
         return order_by_item_str
 
     def __repr__(self):
@@ -445,6 +450,7 @@ class OrderByItem(Expression):
             super().__eq__(other)
             and self.has_asc == other.has_asc
             and self.has_desc == other.has_desc
+            and self.nulls_position == other.nulls_position
         )
 
     def validate(self, known_fields, select_expressions):
-- 
2.43.0


From 705ad4013a526b69c03558a82fc6f4b4a5d710ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:06 +0000
Subject: [PATCH 018/112] fix: upper-case keyword-like names whatever case they
 are written in

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b6fd692..7cb0b7e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -804,7 +804,7 @@ class Column(Expression):
     )
 
     def __str__(self):
-        if self.value in self.KEYWORDS:
+        if lower(self.value) in self.KEYWORDS:
             return self.value.upper()
         return str(self.value)
 
-- 
2.43.0


From 446251fdc8c5213385d7278732f90dab182be449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 019/112] fix: do not replace YES and NO by TRUE and FALSE

---
 sqlvalidator/grammar/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 7cb0b7e..90218a8 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -980,6 +980,7 @@ class Boolean(Expression):
     BOOLEAN_VALUES = TRUE_VALUES + FALSE_VALUES
 
     def __init__(self, value):
+        self.text = value.upper()
         value = lower(value)
         assert value in self.BOOLEAN_VALUES
         if value in self.TRUE_VALUES:
@@ -989,7 +990,7 @@ class Boolean(Expression):
         super().__init__(value)
 
     def __str__(self):
-        return str(self.value).upper()
+        return self.text
 
     @property
     def return_type(self):
-- 
2.43.0


From 6333e4d2b23035e60e2a13cd0fc8a66dfcd74cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 020/112] fix: accept CAST to types of several words or with
 parameters

---
 sqlvalidator/grammar/lexer.py |  7 +++----
 sqlvalidator/grammar/sql.py   | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 0f9212c..33293c0 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -687,11 +687,10 @@ class ExpressionParser:
                         until_one_of=until_one_of,
                     )
                     assert lower(next_token) == "as", next_token
-                    next_token = next(tokens)
-                    cast_type = Type(next_token)
+                    type_tokens, next_token = get_tokens_until_one_of(tokens, [")"])
+                    assert type_tokens and next_token == ")", next_token
+                    cast_type = Type(*type_tokens)
                     expression = CastFunctionCall(column, cast_type)
-                    next_token = next(tokens)
-                    assert lower(next_token) == ")", next_token
                 elif lower(main_token) == "array_agg":
                     next_token = next(tokens)
                     if lower(next_token) == "distinct":
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 90218a8..c2a6dbd 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -862,8 +862,24 @@ class ChainedColumns(Expression):
 class Type(Expression):
     VALUES = ("int", "float", "day", "month", "timestamp", "int64", "string", "date")
 
+    def __init__(self, name, *arguments):
+        super().__init__(name)
+        # e.g. DOUBLE PRECISION, NUMERIC(10, 2) or ARRAY<INT64>
+        self.arguments = arguments
+
     def __str__(self):
-        return self.value.upper()
+        type_str = self.value
+        for argument in self.arguments:
+            if argument not in ("(", ")", "<", ">", ">>", ",") and type_str[-1] not in (
+                "(",
+                "<",
+            ):
+                type_str += " "
+            type_str += argument
+        return type_str.upper()
+
+    def __eq__(self, other):
+        return super().__eq__(other) and self.arguments == other.arguments
 
 
 class DatePartExtraction(Expression):
-- 
2.43.0


From a421c8ef89eec2526c84c958ae999d918528abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 021/112] fix: keep date, time and interval literals

---
 sqlvalidator/grammar/lexer.py | 26 ++++++++++++++++++++++++++
 sqlvalidator/grammar/sql.py   | 26 ++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 33293c0..2be1619 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -26,6 +26,7 @@ from sqlvalidator.grammar.sql import (
     HavingClause,
     Index,
     Integer,
+    Interval,
     Join,
     LimitClause,
     Negation,
@@ -41,6 +42,7 @@ from sqlvalidator.grammar.sql import (
     String,
     Table,
     Type,
+    TypedLiteral,
     Unnest,
     UsingClause,
     WhereClause,
@@ -838,6 +840,30 @@ class ExpressionParser:
                     tokens, start_quote=next_token, prefix=main_token
                 )
                 next_token = next(tokens, None)
+            elif next_token == "'" and lower(main_token) in TypedLiteral.TYPES:
+                expression = TypedLiteral(
+                    main_token, StringParser.parse(tokens, start_quote=next_token)
+                )
+                next_token = next(tokens, None)
+            elif lower(main_token) == "interval" and (
+                next_token is not None
+                and (
+                    next_token in String.QUOTES
+                    or next_token in SignedExpression.SIGNS
+                    or FLOAT_PATTERN.fullmatch(next_token)
+                )
+            ):
+                interval_value, next_token = ExpressionParser.parse(
+                    tokens,
+                    until_one_of=until_one_of,
+                    first_token=next_token,
+                    is_chained_columns=True,
+                )
+                interval_part = None
+                if lower(next_token) in DatePartExtraction.PARTS:
+                    interval_part = next_token
+                    next_token = next(tokens, None)
+                expression = Interval(interval_value, interval_part)
             else:
                 expression = Column(main_token)
 
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c2a6dbd..e785746 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -944,6 +944,32 @@ class String(Expression):
         return str
 
 
+class TypedLiteral(Expression):
+    TYPES = ("date", "time", "datetime", "timestamp")
+
+    def __init__(self, literal_type, value):
+        super().__init__(value)
+        self.literal_type = literal_type
+
+    def __str__(self):
+        return "{} {}".format(self.literal_type.upper(), transform(self.value))
+
+
+class Interval(Expression):
+    def __init__(self, value, part=None):
+        super().__init__(value)
+        self.part = part
+
+    def __str__(self):
+        interval_str = "INTERVAL {}".format(transform(self.value))
+        if self.part:
+            interval_str += " {}".format(self.part.upper())
+        return interval_str
+
+    def __eq__(self, other):
+        return super().__eq__(other) and self.part == other.part
+
+
 class Integer(Expression):
     def __init__(self, value):
         super().__init__(int(value))
-- 
2.43.0


From 8dad803c6b77ca3cdb1c0e805eee34aeaf6d53a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 022/112] fix: raise a parsing error instead of dropping SQL
 that is not understood

---
 sqlvalidator/grammar/lexer.py | 60 ++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 2be1619..2eb75b3 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -64,6 +64,14 @@ class ParsingError(Exception):
     pass
 
 
+def check_no_remaining_token(tokens, next_token):
+    while next_token is not None:
+        # Superfluous closing parentheses at the end are ignored
+        if next_token != ")":
+            raise ParsingError("Unexpected {}".format(next_token))
+        next_token = next(tokens, None)
+
+
 class SQLStatementParser:
     @staticmethod
     def parse(tokens):
@@ -190,6 +198,9 @@ class SelectStatementParser:
             offset_clause = None
 
         semi_colon = bool(next_token and next_token == ";")
+        if semi_colon:
+            next_token = next(tokens, None)
+        check_no_remaining_token(tokens, next_token)
         return SelectStatement(
             select_all=select_all,
             select_distinct=select_distinct,
@@ -233,7 +244,7 @@ class FromStatementParser:
             argument_tokens, next_token = get_tokens_until_one_of(
                 tokens, stop_words=["]"]
             )
-            table, _ = ExpressionParser.parse(iter(argument_tokens))
+            table = ExpressionParser.parse_all(iter(argument_tokens))
             expression = Table(table, in_square_brackets=True)
             assert next_token == "]", next_token
             next_token = next(tokens, None)
@@ -246,7 +257,7 @@ class FromStatementParser:
                     stop_words=Join.VALUES + CombinedQueries.SET_OPERATORS,
                     first_token=next_token,
                 )
-                expression = Table(ExpressionParser.parse(iter(argument_tokens))[0])
+                expression = Table(ExpressionParser.parse_all(iter(argument_tokens)))
 
         if (
             next_token is not None
@@ -318,10 +329,10 @@ class FromStatementParser:
                 Join.VALUES,
             )
             if lower(on_or_using) == "on":
-                expression, _ = ExpressionParser.parse(iter(expression_tokens))
+                expression = ExpressionParser.parse_all(iter(expression_tokens))
                 on = OnClause(expression)
             elif lower(on_or_using) == "using":
-                expressions, _ = ExpressionParser.parse(iter(expression_tokens))
+                expressions = ExpressionParser.parse_all(iter(expression_tokens))
                 using = UsingClause(expressions)
 
             expression = Join(join_type, left_expr, right_expr, on=on, using=using)
@@ -338,6 +349,7 @@ class FromStatementParser:
                 expression = Alias(expression, alias, with_as)
                 next_token = next(tokens, None)
 
+        check_no_remaining_token(tokens, next_token)
         return expression
 
 
@@ -426,6 +438,8 @@ class WithStatementParser:
 
             with_queries.append(WithQuery(with_query_name, with_statement))
             with_query_name = next(tokens)
+            if lower(with_query_name) not in (",", "select"):
+                raise ParsingError("Unexpected {}".format(with_query_name))
 
         select_statement = SelectStatementParser.parse(tokens)
         return WithStatement(with_queries, select_statement)
@@ -521,7 +535,7 @@ class OrderByItemParser:
         expression_tokens, next_token = get_tokens_until_one_of(
             tokens, ["asc", "desc", "nulls"]
         )
-        expression, _ = ExpressionParser.parse(iter(expression_tokens))
+        expression = ExpressionParser.parse_all(iter(expression_tokens))
         if lower(next_token) == "asc":
             has_asc = True
             has_desc = False
@@ -560,14 +574,14 @@ class LimitClauseParser:
             expression_tokens, next_token = get_tokens_until_one_of(
                 tokens, [], first_token=next_token
             )
-            expression, _ = ExpressionParser.parse(iter(expression_tokens))
+            expression = ExpressionParser.parse_all(iter(expression_tokens))
         return LimitClause(limit_all, expression)
 
 
 class OffsetClauseParser:
     @staticmethod
     def parse(tokens):
-        expression, _ = ExpressionParser.parse(tokens)
+        expression = ExpressionParser.parse_all(tokens)
         return OffsetClause(expression)
 
 
@@ -603,7 +617,7 @@ class ExpressionListParser:
                 and count_square_brackets == 0
                 and quote is None
             ):
-                expression, _ = ExpressionParser.parse(
+                expression = ExpressionParser.parse_all(
                     iter(expression_tokens), can_be_type=can_be_type
                 )
                 expressions.append(expression)
@@ -613,6 +627,12 @@ class ExpressionListParser:
 
 
 class ExpressionParser:
+    @classmethod
+    def parse_all(cls, tokens, **kwargs) -> Expression:
+        expression, next_token = cls.parse(tokens, **kwargs)
+        check_no_remaining_token(tokens, next_token)
+        return expression
+
     @staticmethod
     def parse(
         tokens,
@@ -683,7 +703,7 @@ class ExpressionParser:
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens, stop_words=["as"]
                     )
-                    column, _ = ExpressionParser.parse(
+                    column = ExpressionParser.parse_all(
                         iter(column_tokens),
                         is_right_hand=True,
                         until_one_of=until_one_of,
@@ -707,7 +727,7 @@ class ExpressionParser:
                         stop_words=[")", "ignore", "respect", "order", "limit"],
                         first_token=first_token,
                     )
-                    column, _ = ExpressionParser.parse(
+                    column = ExpressionParser.parse_all(
                         iter(column_tokens), until_one_of=until_one_of
                     )
 
@@ -785,7 +805,7 @@ class ExpressionParser:
                     assert next_next_token == "(", next_next_token
                     argument_tokens = get_tokens_until_closing_parenthesis(tokens)
                     assert lower(argument_tokens[0]) == "where", argument_tokens
-                    filter_condition, next_token = ExpressionParser.parse(
+                    filter_condition = ExpressionParser.parse_all(
                         iter(argument_tokens[1:]),
                         can_alias=False,
                     )
@@ -903,6 +923,7 @@ class ExpressionParser:
                     rows_range, " ".join(expression_tokens)
                 )
             else:
+                check_no_remaining_token(argument_tokens, argument_next_token)
                 frame_clause = None
 
             expression = AnalyticsClause(
@@ -1027,15 +1048,16 @@ class ExpressionParser:
         ):
             if lower(next_token) == "as":
                 with_as = True
-                alias, _ = ExpressionParser.parse(
+                alias, next_token = ExpressionParser.parse(
                     tokens, is_right_hand=True, until_one_of=until_one_of
                 )
             else:
                 with_as = False
                 alias = next_token
-            if alias in String.QUOTES:
-                alias = StringParser.parse(tokens, alias)
-            return Alias(expression, alias, with_as), next(tokens, None)
+                if alias in String.QUOTES:
+                    alias = StringParser.parse(tokens, alias)
+                next_token = next(tokens, None)
+            return Alias(expression, alias, with_as), next_token
         return expression, next_token
 
 
@@ -1065,21 +1087,21 @@ class CaseParser:
             expressions_tokens, next_token = get_tokens_until_one_of(
                 tokens, ["when"], first_token=next_token
             )
-            expression, _ = ExpressionParser.parse(iter(expressions_tokens))
+            expression = ExpressionParser.parse_all(iter(expressions_tokens))
 
         when_then = []
         else_expression = None
         while next_token:
             if lower(next_token) == "when":
                 expressions_tokens, _ = get_tokens_until_one_of(tokens, ["then"])
-                when_expression, _ = ExpressionParser.parse(iter(expressions_tokens))
+                when_expression = ExpressionParser.parse_all(iter(expressions_tokens))
                 expressions_tokens, next_token = get_tokens_until_one_of(
                     tokens, ["when", "else"]
                 )
-                then_expression, _ = ExpressionParser.parse(iter(expressions_tokens))
+                then_expression = ExpressionParser.parse_all(iter(expressions_tokens))
                 when_then.append((when_expression, then_expression))
             elif lower(next_token) == "else":
                 expressions_tokens, next_token = get_tokens_until_one_of(tokens, [])
-                else_expression, _ = ExpressionParser.parse(iter(expressions_tokens))
+                else_expression = ExpressionParser.parse_all(iter(expressions_tokens))
 
         return Case(expression, when_then, else_expression)
-- 
2.43.0


From a2004d4006f4c6a9baec2a4132badc86bd49892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 023/112] fix: refuse SQL comments instead of formatting their
 content as SQL

---
 sqlvalidator/grammar/tokeniser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 0f467fa..0c5a19e 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -3,6 +3,7 @@ from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
 WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\r", "\t")
+COMMENT_TOKENS = ("--", "/*")
 KEPT_SPLIT_TOKENS = (
     ",",
     ";",
@@ -220,6 +221,10 @@ def split_tokens(value: str):
         yield from _split_on_literals(value)
         return
 
+    for comment_token in COMMENT_TOKENS:
+        if comment_token in value:
+            raise ValueError("SQL comments are not supported")
+
     for whitespace_token in WHITESPACE_SPLIT_TOKENS:
         if whitespace_token in value:
             yield from _split_on_whitespace_token(whitespace_token, value)
-- 
2.43.0


From a86042a7485f35f065ba67e709f19fa9d6f150f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 024/112] fix: keep %(name)s placeholders in one piece

---
 sqlvalidator/grammar/tokeniser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 0c5a19e..67ae847 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -25,8 +25,9 @@ KEPT_SPLIT_TOKENS = (
     ".",
 )
 FLOAT_PATTERN = re.compile(r"(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
-EXPONENT_SPLIT_PATTERN = re.compile(
-    r"((?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.]))"
+# numbers with an exponent, and placeholders like %(name)s
+UNSPLIT_PATTERN = re.compile(
+    r"((?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.])|%\(\w+\)s(?!\w))"
 )
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
 
@@ -230,7 +231,7 @@ def split_tokens(value: str):
             yield from _split_on_whitespace_token(whitespace_token, value)
             return
 
-    splitted = EXPONENT_SPLIT_PATTERN.split(value)
+    splitted = UNSPLIT_PATTERN.split(value)
     if len(splitted) > 1:
         for index, elem in enumerate(splitted):
             if index % 2 == 1:
-- 
2.43.0


From 0910b5a114f95682d5f33e710b391e391baaf01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 025/112] fix: format WITH inside of a WITH query

---
 sqlvalidator/grammar/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e785746..8be93d2 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -539,11 +539,14 @@ class WithStatement(Expression):
         self.with_queries = with_queries
         self.select_statement = select_statement
 
-    def transform(self):
-        return "WITH {}\n{}".format(
+    def transform(self, is_subquery=False):
+        statement_str = "WITH {}\n{}".format(
             ",\n".join(map(transform, self.with_queries)),
             transform(self.select_statement),
         )
+        if is_subquery:
+            statement_str = " " + statement_str.replace("\n", "\n ")
+        return statement_str
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 1c1b75f33b7be7c192baf75bea9a7933d7bf1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 026/112] fix: validate the operand of CAST instead of failing

---
 sqlvalidator/grammar/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8be93d2..8acc2c3 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -615,6 +615,9 @@ class CastFunctionCall(FunctionCall):
             transform(self.args[2]),
         )
 
+    def validate(self, known_fields):
+        return self.args[0].validate(known_fields)
+
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
-- 
2.43.0


From d8dd747f756a5a096cefce66b62d5b80ac2aaf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 027/112] fix: accept LIMIT ALL when validating

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8acc2c3..56f4525 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -489,6 +489,8 @@ class LimitClause(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        if self.limit_all:
+            return errors
         value = self.value
         while isinstance(value, Parenthesis):
             value = value.value
-- 
2.43.0


From 4b3e50b317145d823e35f92074f297a4a1301343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 028/112] fix: treat the type of a scalar subquery as unknown

---
 sqlvalidator/grammar/sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 56f4525..7a94ee2 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -164,6 +164,10 @@ class SelectStatement:
             errors += self.offset_clause.validate(known_fields)
         return errors
 
+    @property
+    def return_type(self):
+        return object
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
-- 
2.43.0


From 590e7843158953492bfbc0fca9495d8e00d19b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 029/112] fix: validate WITH statements instead of failing

---
 sqlvalidator/grammar/sql.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 7a94ee2..651323c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -554,6 +554,17 @@ class WithStatement(Expression):
             statement_str = " " + statement_str.replace("\n", "\n ")
         return statement_str
 
+    def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
+        errors = []
+        for with_query in self.with_queries:
+            errors += with_query.statement.validate()
+        errors += self.select_statement.validate(known_fields)
+        return errors
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.select_statement.known_fields
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
-- 
2.43.0


From 44e0029b4b432acddf7c2a37ab6e0c2cb32d33ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 030/112] fix: do not check positions of a window ORDER BY
 against the select list

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 651323c..a2d23c9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -463,7 +463,7 @@ class OrderByItem(Expression):
         while isinstance(value, Parenthesis):
             value = value.value
 
-        if isinstance(value, Integer):
+        if isinstance(value, Integer) and select_expressions is not None:
             if value.value <= 0 or value.value > len(select_expressions):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
-- 
2.43.0


From 6e8d5bbdeb710031f3661b411e35bade0ea92ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 031/112] fix: accept positions beyond a star of the select
 list

---
 sqlvalidator/grammar/sql.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a2d23c9..3c6f8a9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -307,6 +307,23 @@ class WhereClause(Expression):
         return type(self) == type(other) and self.value == other.value
 
 
+def _is_star(expression: Any) -> bool:
+    while isinstance(expression, (SelectAllClause, ChainedColumns)):
+        if isinstance(expression, SelectAllClause):
+            expression = expression.value
+        else:
+            expression = expression.columns[-1]
+    return isinstance(expression, Column) and expression.value == "*"
+
+
+def _has_position(position: int, select_expressions) -> bool:
+    # a star stands for any number of expressions
+    return position > 0 and (
+        position <= len(select_expressions)
+        or any(map(_is_star, select_expressions))
+    )
+
+
 class GroupByClause(Expression):
     def __init__(self, *args, rollup=False):
         self.args = args
@@ -343,8 +360,8 @@ class GroupByClause(Expression):
         for arg in self.args:
             while isinstance(arg, Parenthesis):
                 arg = arg.args[0]
-            if isinstance(arg, Integer) and (
-                arg.value <= 0 or arg.value > len(select_expressions)
+            if isinstance(arg, Integer) and not _has_position(
+                arg.value, select_expressions
             ):
                 errors.append(
                     "GROUP BY position {} is not in select list".format(arg.value)
@@ -464,7 +481,7 @@ class OrderByItem(Expression):
             value = value.value
 
         if isinstance(value, Integer) and select_expressions is not None:
-            if value.value <= 0 or value.value > len(select_expressions):
+            if not _has_position(value.value, select_expressions):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
-- 
2.43.0


From c0a7dd5dc9e364a328948921eaef59761aa4f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 032/112] fix: name the ambiguous column of GROUP BY instead of
 failing

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 3c6f8a9..b162d70 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -379,7 +379,7 @@ class GroupByClause(Expression):
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
                 ]
                 if len(fields_without_alias) > 1:
-                    errors.append('column "{}" is ambiguous'.format(self.value))
+                    errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
 
-- 
2.43.0


From 1189db507aefc2cbd1ab8d1fb789a8e06192e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 033/112] fix: validate every item of GROUP BY, in brackets and
 in expressions

---
 sqlvalidator/grammar/sql.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b162d70..435a1fa 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -355,17 +355,25 @@ class GroupByClause(Expression):
             and self.group_each_by == other.group_each_by
         )
 
+    @classmethod
+    def _flatten(cls, args):
+        for arg in args:
+            if isinstance(arg, Parenthesis):
+                yield from cls._flatten(arg.args)
+            else:
+                yield arg
+
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
-        for arg in self.args:
-            while isinstance(arg, Parenthesis):
-                arg = arg.args[0]
+        for arg in self._flatten(self.args):
             if isinstance(arg, Integer) and not _has_position(
                 arg.value, select_expressions
             ):
                 errors.append(
                     "GROUP BY position {} is not in select list".format(arg.value)
                 )
+            elif not isinstance(arg, (Integer, Column, String)):
+                errors += arg.validate(known_fields)
             elif (
                 isinstance(arg, (Column, String))
                 and (
-- 
2.43.0


From 9df119fa793ed74ad39564383cd1f9f625927c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 034/112] fix: resolve quoted aliases instead of failing

---
 sqlvalidator/grammar/sql.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 435a1fa..ee8bdc9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -28,6 +28,15 @@ class _FieldInfo:
         return hash(self.name)
 
 
+def _get_name(name: Any) -> str:
+    """
+    The name itself, of an alias or a column: without the quotes it is written with
+    """
+    if isinstance(name, (Column, String)):
+        return name.value
+    return transform(name)
+
+
 class SelectStatement:
     def __init__(
         self,
@@ -175,10 +184,7 @@ class SelectStatement:
             if isinstance(e, Column):
                 fields.add(_FieldInfo(e.value, e.return_type))
             elif isinstance(e, Alias):
-                if isinstance(e.alias, Column):
-                    fields.add(_FieldInfo(e.alias.value, e.return_type))
-                else:
-                    fields.add(_FieldInfo(e.alias, e.return_type))
+                fields.add(_FieldInfo(_get_name(e.alias), e.return_type))
 
         if self.from_statement:
             if isinstance(self.from_statement, Parenthesis) and isinstance(
@@ -1191,7 +1197,7 @@ class Alias(Expression):
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return {
-            _FieldInfo("{}.{}".format(transform(self.alias), f.name), f.type)
+            _FieldInfo("{}.{}".format(_get_name(self.alias), f.name), f.type)
             for f in self.expression.known_fields
         }
 
@@ -1461,14 +1467,14 @@ class Join(Expression):
     def known_fields(self) -> Set[_FieldInfo]:
         known_fields = set()
         if isinstance(self.left_from, Alias):
-            left_alias = self.left_from.alias
+            left_alias = _get_name(self.left_from.alias)
             for field in self.left_from.expression.known_fields:
                 known_fields.add(_FieldInfo(left_alias + "." + field.name, field.type))
         else:
             known_fields |= self.left_from.known_fields
 
         if isinstance(self.right_from, Alias):
-            right_alias = self.right_from.alias
+            right_alias = _get_name(self.right_from.alias)
             for field in self.right_from.expression.known_fields:
                 known_fields.add(
                     _FieldInfo(
-- 
2.43.0


From dec166fb225832f39739e97d93b9d500efe8e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 035/112] fix: let GROUP BY and ORDER BY use the aliases of the
 select list

---
 sqlvalidator/grammar/sql.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ee8bdc9..967d481 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -160,13 +160,17 @@ class SelectStatement:
         if self.where_clause:
             errors += self.where_clause.validate(known_fields)
         if self.group_by_clause:
-            errors += self.group_by_clause.validate(known_fields, self.expressions)
+            errors += self.group_by_clause.validate(
+                known_fields | self._aliased_fields, self.expressions
+            )
         if self.having_clause:
             errors += self.having_clause.validate(known_fields)
         for _, right_query in self.set_operations:
             errors += right_query.validate(outer_known_fields)
         if self.order_by_clause:
-            errors += self.order_by_clause.validate(known_fields, self.expressions)
+            errors += self.order_by_clause.validate(
+                known_fields | self._aliased_fields, self.expressions
+            )
         if self.limit_clause:
             errors += self.limit_clause.validate(known_fields)
         if self.offset_clause:
@@ -177,14 +181,20 @@ class SelectStatement:
     def return_type(self):
         return object
 
+    @property
+    def _aliased_fields(self) -> Set[_FieldInfo]:
+        return {
+            _FieldInfo(_get_name(e.alias), e.return_type)
+            for e in self.expressions
+            if isinstance(e, Alias)
+        }
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        fields = set()
+        fields = self._aliased_fields
         for e in self.expressions:
             if isinstance(e, Column):
                 fields.add(_FieldInfo(e.value, e.return_type))
-            elif isinstance(e, Alias):
-                fields.add(_FieldInfo(_get_name(e.alias), e.return_type))
 
         if self.from_statement:
             if isinstance(self.from_statement, Parenthesis) and isinstance(
@@ -382,11 +392,7 @@ class GroupByClause(Expression):
                 errors += arg.validate(known_fields)
             elif (
                 isinstance(arg, (Column, String))
-                and (
-                    not any(f.name == arg.value for f in known_fields)
-                    and arg.value
-                    not in [e.alias for e in select_expressions if isinstance(e, Alias)]
-                )
+                and not any(f.name == arg.value for f in known_fields)
                 and not any(f.name == "*" for f in known_fields)
             ):
                 fields_without_alias = [
-- 
2.43.0


From 3a424c2d2c6f763beb142188876cef88e3cfeaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 036/112] fix: accept any column from UNNEST when validating

---
 sqlvalidator/grammar/sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 967d481..0ea0a48 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1337,6 +1337,10 @@ class Unnest(Expression):
                 unnest_str += f" {self.offset_alias}"
         return unnest_str
 
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return {_FieldInfo("*", type=object)}
+
     def __eq__(self, other):
         return (
             (isinstance(other, type(self)) or isinstance(self, type(other)))
-- 
2.43.0


From 3cfbab00985b8c60da2a5f3ef185418e9ca6abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 037/112] fix: validate both sides of set operations in FROM

---
 sqlvalidator/grammar/sql.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 0ea0a48..23d1f63 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1511,6 +1511,15 @@ class CombinedQueries(Expression):
             transform(self.left_query), self.set_operator, self.right_query
         )
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        return self.left_query.validate(known_fields) + self.right_query.validate(
+            known_fields
+        )
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.left_query.known_fields
+
     @staticmethod
     def combine(left_str, set_operator, right_query):
         return "{}\n{}{}{}".format(
-- 
2.43.0


From d17171cc6d03bbeaba44076444a37a366c58ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 038/112] fix: pass on exactly the columns a star or a
 qualified column of a subquery provides

---
 sqlvalidator/grammar/sql.py | 50 ++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 23d1f63..80dcdf6 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -193,22 +193,30 @@ class SelectStatement:
     def known_fields(self) -> Set[_FieldInfo]:
         fields = self._aliased_fields
         for e in self.expressions:
-            if isinstance(e, Column):
+            if _is_star(e):
+                fields |= self._get_star_fields(e)
+            elif isinstance(e, ChainedColumns):
+                fields.add(_FieldInfo(_get_name(e.last_column), e.return_type))
+            elif isinstance(e, Column):
                 fields.add(_FieldInfo(e.value, e.return_type))
-
-        if self.from_statement:
-            if isinstance(self.from_statement, Parenthesis) and isinstance(
-                self.from_statement.args[0], SelectStatement
-            ):
-                subquery_known_fields = self.from_statement.args[0].known_fields
-                if any(f.name == "*" for f in fields) and not any(
-                    f.name == "*" for f in subquery_known_fields
-                ):
-                    fields = {f for f in fields if f.name != "*"}
-                    fields |= subquery_known_fields
-
         return fields
 
+    def _get_star_fields(self, star) -> Set[_FieldInfo]:
+        fields = getattr(self.from_statement, "known_fields", set())
+        excluded_names = set()
+        while isinstance(star, SelectAllClause):
+            if isinstance(star, ExceptClause):
+                excluded_names |= {_get_name(arg) for arg in star.args}
+            star = star.value
+        if isinstance(star, ChainedColumns) and not any(f.name == "*" for f in fields):
+            alias = _get_name(star.columns[0])
+            fields = {f for f in fields if f.name.startswith(alias + ".")}
+
+        fields = {_FieldInfo(f.name.split(".", 1)[-1], f.type) for f in fields}
+        if any(f.name == "*" for f in fields):
+            return {_FieldInfo("*", type=object)}
+        return {f for f in fields if f.name not in excluded_names}
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
@@ -324,11 +332,10 @@ class WhereClause(Expression):
 
 
 def _is_star(expression: Any) -> bool:
-    while isinstance(expression, (SelectAllClause, ChainedColumns)):
-        if isinstance(expression, SelectAllClause):
-            expression = expression.value
-        else:
-            expression = expression.columns[-1]
+    while isinstance(expression, SelectAllClause):
+        expression = expression.value
+    if isinstance(expression, ChainedColumns):
+        expression = expression.last_column
     return isinstance(expression, Column) and expression.value == "*"
 
 
@@ -902,6 +909,13 @@ class ChainedColumns(Expression):
             and all(a == o for a, o in zip(self.columns, other.columns))
         )
 
+    @property
+    def last_column(self):
+        last_column = self.columns[-1]
+        if isinstance(last_column, ChainedColumns):
+            return last_column.last_column
+        return last_column
+
     @property
     def return_type(self):
         return self.columns[-1].return_type
-- 
2.43.0


From bae622e3b59e80d686f1cbb7db7a402810a2c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 039/112] fix: resolve quoted, starred, indexed and nested
 field names of an alias

---
 sqlvalidator/grammar/sql.py | 60 +++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 80dcdf6..c1d9506 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -646,6 +646,11 @@ class FunctionCall(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        errors += self.validate_arguments(known_fields)
+        return errors
+
+    def validate_arguments(self, known_fields):
+        errors = []
         for a in self.args:
             errors += a.validate(known_fields)
         return errors
@@ -676,7 +681,7 @@ class CastFunctionCall(FunctionCall):
             transform(self.args[2]),
         )
 
-    def validate(self, known_fields):
+    def validate_arguments(self, known_fields):
         return self.args[0].validate(known_fields)
 
 
@@ -909,12 +914,19 @@ class ChainedColumns(Expression):
             and all(a == o for a, o in zip(self.columns, other.columns))
         )
 
+    @property
+    def all_columns(self):
+        all_columns = []
+        for column in self.columns:
+            if isinstance(column, ChainedColumns):
+                all_columns += column.all_columns
+            else:
+                all_columns.append(column)
+        return all_columns
+
     @property
     def last_column(self):
-        last_column = self.columns[-1]
-        if isinstance(last_column, ChainedColumns):
-            return last_column.last_column
-        return last_column
+        return self.all_columns[-1]
 
     @property
     def return_type(self):
@@ -922,13 +934,28 @@ class ChainedColumns(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        full_value = str(self)
-        alias = ".".join(map(transform, self.columns[:-1]))
-        last_value = self.columns[-1]
-        if (
-            not any(f.name == full_value for f in known_fields)
-            and not any(f.name == f"{alias}.*" for f in known_fields)
-        ) and not any(f.name == "*" for f in known_fields):
+        first_column, *other_columns = self.all_columns
+        for column in other_columns:
+            if isinstance(column, (FunctionCall, Index)):
+                errors += column.validate_arguments(known_fields)
+        if not isinstance(first_column, (Column, String)):
+            return errors + first_column.validate(known_fields)
+
+        column = other_columns[0]
+        while isinstance(column, Index):
+            column = column.value
+        if isinstance(column, FunctionCall):
+            return errors  # the prefix is a part of the name of the function
+
+        alias = _get_name(first_column)
+        name = _get_name(column)
+        if not any(
+            f.name in ("*", f"{alias}.*", f"{alias}.{name}")
+            or (name == "*" and f.name.startswith(f"{alias}."))
+            or f.name.split(".", 1)[-1] == alias  # a field of this column
+            for f in known_fields
+        ):
+            last_value = ".".join(map(transform, other_columns))
             errors.append(f"The column {last_value} was not found in alias {alias}")
         return errors
 
@@ -1227,6 +1254,15 @@ class Index(Expression):
         super().__init__(expression)
         self.indices = indices
 
+    def validate(self, known_fields):
+        return self.value.validate(known_fields) + self.validate_arguments(known_fields)
+
+    def validate_arguments(self, known_fields):
+        errors = []
+        for index in self.indices:
+            errors += index.validate(known_fields)
+        return errors
+
     def __str__(self):
         return "{}[{}]".format(
             transform(self.value), ", ".join(map(transform, self.indices))
-- 
2.43.0


From a3d03ab62e23f604c011093d30d2b419c7b6b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 040/112] fix: accept unqualified columns next to an aliased
 table in brackets or quotes

---
 sqlvalidator/grammar/sql.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c1d9506..04cd96b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -331,6 +331,13 @@ class WhereClause(Expression):
         return type(self) == type(other) and self.value == other.value
 
 
+def _has_open_alias(known_fields: Set[_FieldInfo]) -> bool:
+    """
+    Is there an aliased table, of which the columns are unknown
+    """
+    return any(f.name.endswith(".*") for f in known_fields)
+
+
 def _is_star(expression: Any) -> bool:
     while isinstance(expression, SelectAllClause):
         expression = expression.value
@@ -407,7 +414,9 @@ class GroupByClause(Expression):
                 ]
                 if len(fields_without_alias) > 1:
                     errors.append('column "{}" is ambiguous'.format(arg.value))
-                elif len(fields_without_alias) == 0:
+                elif len(fields_without_alias) == 0 and not _has_open_alias(
+                    known_fields
+                ):
                     errors.append('column "{}" does not exist'.format(arg.value))
 
         return errors
@@ -892,7 +901,7 @@ class Column(Expression):
             ]
             if len(fields_without_alias) > 1:
                 errors.append('column "{}" is ambiguous'.format(self.value))
-            elif len(fields_without_alias) == 0:
+            elif len(fields_without_alias) == 0 and not _has_open_alias(known_fields):
                 errors.append("The column {} was not found".format(self.value))
         return errors
 
@@ -954,6 +963,9 @@ class ChainedColumns(Expression):
             or (name == "*" and f.name.startswith(f"{alias}."))
             or f.name.split(".", 1)[-1] == alias  # a field of this column
             for f in known_fields
+        ) and not (
+            _has_open_alias(known_fields)
+            and not any(f.name.startswith(f"{alias}.") for f in known_fields)
         ):
             last_value = ".".join(map(transform, other_columns))
             errors.append(f"The column {last_value} was not found in alias {alias}")
-- 
2.43.0


From 3afdf2f1ae7594bf481eb7260d22c902faed7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 041/112] fix: let the columns of an inner query hide those of
 the queries around it

---
 sqlvalidator/grammar/sql.py | 52 +++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 04cd96b..f702b3c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -23,6 +23,7 @@ def format_statement(statement: Any) -> str:
 class _FieldInfo:
     name: str
     type: type
+    depth: int = 0  # number of queries between the source of the field and its use
 
     def __hash__(self):
         return hash(self.name)
@@ -149,7 +150,9 @@ class SelectStatement:
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
         outer_known_fields = known_fields or set()
-        known_fields = outer_known_fields
+        known_fields = {
+            _FieldInfo(f.name, f.type, f.depth + 1) for f in outer_known_fields
+        }
         if hasattr(self.from_statement, "known_fields"):
             known_fields = known_fields | self.from_statement.known_fields
 
@@ -331,6 +334,23 @@ class WhereClause(Expression):
         return type(self) == type(other) and self.value == other.value
 
 
+def _get_nearest_fields(name: str, known_fields: Set[_FieldInfo]) -> List[_FieldInfo]:
+    """
+    The fields this name can refer to: those of an inner query hide those of the
+    queries around it, and it can be any column of an aliased table.
+    """
+    fields = [
+        f
+        for f in known_fields
+        if f.name.split(".", 1)[-1] in (name, "*") or f.name == name
+    ]
+    depth = min((f.depth for f in fields), default=0)
+    fields = [f for f in fields if f.depth == depth]
+    exact_fields = [f for f in fields if f.name in (name, "*")]
+    closed_fields = [f for f in fields if not f.name.endswith("*")]
+    return exact_fields[:1] or closed_fields or fields[:1]
+
+
 def _has_open_alias(known_fields: Set[_FieldInfo]) -> bool:
     """
     Is there an aliased table, of which the columns are unknown
@@ -404,19 +424,13 @@ class GroupByClause(Expression):
                 )
             elif not isinstance(arg, (Integer, Column, String)):
                 errors += arg.validate(known_fields)
-            elif (
-                isinstance(arg, (Column, String))
-                and not any(f.name == arg.value for f in known_fields)
-                and not any(f.name == "*" for f in known_fields)
+            elif isinstance(arg, (Column, String)) and not any(
+                f.name == "*" for f in known_fields
             ):
-                fields_without_alias = [
-                    f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
-                ]
-                if len(fields_without_alias) > 1:
+                fields = _get_nearest_fields(arg.value, known_fields)
+                if len(fields) > 1:
                     errors.append('column "{}" is ambiguous'.format(arg.value))
-                elif len(fields_without_alias) == 0 and not _has_open_alias(
-                    known_fields
-                ):
+                elif len(fields) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
 
         return errors
@@ -891,17 +905,11 @@ class Column(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        if (
-            not any(f.name == self.value for f in known_fields)
-            and self.value != "*"
-            and not any(f.name == "*" for f in known_fields)
-        ):
-            fields_without_alias = [
-                f for f in known_fields if f.name.split(".", 1)[-1] == self.value
-            ]
-            if len(fields_without_alias) > 1:
+        if self.value != "*" and not any(f.name == "*" for f in known_fields):
+            fields = _get_nearest_fields(self.value, known_fields)
+            if len(fields) > 1:
                 errors.append('column "{}" is ambiguous'.format(self.value))
-            elif len(fields_without_alias) == 0 and not _has_open_alias(known_fields):
+            elif len(fields) == 0:
                 errors.append("The column {} was not found".format(self.value))
         return errors
 
-- 
2.43.0


From 60249723459fc286dc097e593c35be289e9964b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 042/112] fix: let the alias of an inner query hide the same
 alias of an outer one

---
 sqlvalidator/grammar/sql.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f702b3c..8c21308 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -351,13 +351,6 @@ def _get_nearest_fields(name: str, known_fields: Set[_FieldInfo]) -> List[_Field
     return exact_fields[:1] or closed_fields or fields[:1]
 
 
-def _has_open_alias(known_fields: Set[_FieldInfo]) -> bool:
-    """
-    Is there an aliased table, of which the columns are unknown
-    """
-    return any(f.name.endswith(".*") for f in known_fields)
-
-
 def _is_star(expression: Any) -> bool:
     while isinstance(expression, SelectAllClause):
         expression = expression.value
@@ -966,14 +959,17 @@ class ChainedColumns(Expression):
 
         alias = _get_name(first_column)
         name = _get_name(column)
+        alias_fields = [f for f in known_fields if f.name.startswith(f"{alias}.")]
+        depth = min((f.depth for f in alias_fields), default=0)
         if not any(
-            f.name in ("*", f"{alias}.*", f"{alias}.{name}")
-            or (name == "*" and f.name.startswith(f"{alias}."))
+            (name == "*" or f.name in (f"{alias}.*", f"{alias}.{name}"))
+            and f.depth == depth
+            for f in alias_fields
+        ) and not any(
+            f.name == "*"
+            or (f.name.endswith(".*") and not alias_fields)
             or f.name.split(".", 1)[-1] == alias  # a field of this column
             for f in known_fields
-        ) and not (
-            _has_open_alias(known_fields)
-            and not any(f.name.startswith(f"{alias}.") for f in known_fields)
         ):
             last_value = ".".join(map(transform, other_columns))
             errors.append(f"The column {last_value} was not found in alias {alias}")
-- 
2.43.0


From b9bf48eef877a169d2c8409b84fbd353f22fbc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 043/112] fix: name the type of an arithmetic expression with a
 float operand

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8c21308..6643bb4 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1314,7 +1314,7 @@ class ArithmaticOperator(Expression):
 
     @property
     def return_type(self):
-        if any(isinstance(a, float) for a in self.args):
+        if any(a.return_type is float for a in self.args):
             return float
         return int
 
-- 
2.43.0


From c0bd5494234da6c941bf4105bde7fe73fc6a995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 044/112] fix: do not take NULL, quoted names, tuples and empty
 brackets for a known type

---
 sqlvalidator/grammar/sql.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6643bb4..72cc400 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1058,7 +1058,8 @@ class String(Expression):
 
     @property
     def return_type(self):
-        return str
+        # other quotes can be those of a name
+        return str if self.quotes == "'" else object
 
 
 class TypedLiteral(Expression):
@@ -1122,10 +1123,6 @@ class Null(Expression):
     def __str__(self):
         return "NULL"
 
-    @property
-    def return_type(self):
-        return type(None)
-
 
 class Boolean(Expression):
     TRUE_VALUES = (
@@ -1182,6 +1179,8 @@ class Parenthesis(Expression):
 
     @property
     def value(self):
+        if not self.args:
+            return Null()
         if isinstance(self.args[0], Parenthesis):
             return self.args[0].value
         return self.args[0]
@@ -1200,8 +1199,7 @@ class Parenthesis(Expression):
 
     @property
     def return_type(self):
-        for a in self.args:
-            return a.return_type
+        return self.args[0].return_type if len(self.args) == 1 else object
 
 
 class Array(Expression):
-- 
2.43.0


From 07b3905486a188620b1fa0e7d4c40f1ff54b6136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 045/112] fix: know the type of a column through aliases,
 brackets and nested queries

---
 sqlvalidator/grammar/sql.py | 46 ++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 72cc400..3670962 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -187,11 +187,17 @@ class SelectStatement:
     @property
     def _aliased_fields(self) -> Set[_FieldInfo]:
         return {
-            _FieldInfo(_get_name(e.alias), e.return_type)
+            _FieldInfo(_get_name(e.alias), self._get_type(e.expression))
             for e in self.expressions
             if isinstance(e, Alias)
         }
 
+    def _get_type(self, expression) -> type:
+        if isinstance(expression, SelectStatement):
+            return expression.return_type
+        source_fields = getattr(self.from_statement, "known_fields", set())
+        return expression.resolve_return_type(source_fields)
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         fields = self._aliased_fields
@@ -199,9 +205,9 @@ class SelectStatement:
             if _is_star(e):
                 fields |= self._get_star_fields(e)
             elif isinstance(e, ChainedColumns):
-                fields.add(_FieldInfo(_get_name(e.last_column), e.return_type))
+                fields.add(_FieldInfo(_get_name(e.last_column), self._get_type(e)))
             elif isinstance(e, Column):
-                fields.add(_FieldInfo(e.value, e.return_type))
+                fields.add(_FieldInfo(e.value, self._get_type(e)))
         return fields
 
     def _get_star_fields(self, star) -> Set[_FieldInfo]:
@@ -303,9 +309,6 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
-        matching_fields = [f for f in known_fields if f.name == transform(self)]
-        if matching_fields:
-            return matching_fields[0].type
         return self.return_type
 
 
@@ -346,9 +349,13 @@ def _get_nearest_fields(name: str, known_fields: Set[_FieldInfo]) -> List[_Field
     ]
     depth = min((f.depth for f in fields), default=0)
     fields = [f for f in fields if f.depth == depth]
-    exact_fields = [f for f in fields if f.name in (name, "*")]
-    closed_fields = [f for f in fields if not f.name.endswith("*")]
-    return exact_fields[:1] or closed_fields or fields[:1]
+    for preferred_name in ("*", name):
+        if any(f.name == preferred_name for f in fields):
+            fields = [f for f in fields if f.name == preferred_name]
+    fields = [f for f in fields if not f.name.endswith(".*")] or fields[:1]
+    if len(fields) > 1 and len({f.name for f in fields}) == 1:  # different types
+        fields = [_FieldInfo(fields[0].name, object, depth)]
+    return fields
 
 
 def _is_star(expression: Any) -> bool:
@@ -907,6 +914,11 @@ class Column(Expression):
         return errors
 
 
+    def resolve_return_type(self, known_fields):
+        fields = _get_nearest_fields(self.value, known_fields)
+        return fields[0].type if len(fields) == 1 else object
+
+
 class ChainedColumns(Expression):
     def __init__(self, *args):
         self.columns = args
@@ -938,10 +950,6 @@ class ChainedColumns(Expression):
     def last_column(self):
         return self.all_columns[-1]
 
-    @property
-    def return_type(self):
-        return self.columns[-1].return_type
-
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         first_column, *other_columns = self.all_columns
@@ -975,6 +983,13 @@ class ChainedColumns(Expression):
             errors.append(f"The column {last_value} was not found in alias {alias}")
         return errors
 
+    def resolve_return_type(self, known_fields):
+        name = ".".join(map(_get_name, self.all_columns))
+        fields = [f for f in known_fields if f.name == name]
+        depth = min((f.depth for f in fields), default=0)
+        types = {f.type for f in fields if f.depth == depth}
+        return types.pop() if len(types) == 1 else self.return_type
+
 
 class Type(Expression):
     VALUES = ("int", "float", "day", "month", "timestamp", "int64", "string", "date")
@@ -1201,6 +1216,11 @@ class Parenthesis(Expression):
     def return_type(self):
         return self.args[0].return_type if len(self.args) == 1 else object
 
+    def resolve_return_type(self, known_fields):
+        if len(self.args) == 1 and isinstance(self.args[0], Expression):
+            return self.args[0].resolve_return_type(known_fields)
+        return self.return_type
+
 
 class Array(Expression):
     def __init__(self, *args):
-- 
2.43.0


From 1f735688e1b37531a1a5f2cbca960de261a6ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 046/112] fix: look for missing columns inside of every
 expression

---
 sqlvalidator/grammar/sql.py | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 3670962..b9cac00 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1046,6 +1046,9 @@ class DatePartExtraction(Expression):
         super().__init__(date_expression)
         self.part = part
 
+    def validate(self, known_fields):
+        return super().validate(known_fields) + self.value.validate(known_fields)
+
     def __str__(self):
         return "{} FROM {}".format(self.part.upper(), transform(self.value))
 
@@ -1099,6 +1102,9 @@ class Interval(Expression):
             interval_str += " {}".format(self.part.upper())
         return interval_str
 
+    def validate(self, known_fields):
+        return super().validate(known_fields) + self.value.validate(known_fields)
+
     def __eq__(self, other):
         return super().__eq__(other) and self.part == other.part
 
@@ -1229,6 +1235,12 @@ class Array(Expression):
     def __str__(self):
         return "[{}]".format(", ".join(map(transform, self.args)))
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for a in self.args:
+            errors += a.validate(known_fields)
+        return errors
+
     def __repr__(self):
         return "<Array: {}>".format(", ".join(map(repr, self.args)))
 
@@ -1330,6 +1342,12 @@ class ArithmaticOperator(Expression):
             and all(a == o for a, o in zip(self.args, other.args))
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for a in self.args:
+            errors += a.validate(known_fields)
+        return errors
+
     @property
     def return_type(self):
         if any(a.return_type is float for a in self.args):
@@ -1381,6 +1399,12 @@ class BitwiseOperation(Expression):
             transform(self.value), self.predicate, transform(self.right_hand)
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
+        errors += self.right_hand.validate(known_fields)
+        return errors
+
     def __repr__(self):
         return "<BitwiseOperation: {!r} {} {!r}>".format(
             self.value, self.predicate, self.right_hand
@@ -1783,6 +1807,9 @@ class Negation(Expression):
             negation += " "
         return negation + transform(self.value)
 
+    def validate(self, known_fields):
+        return super().validate(known_fields) + self.value.validate(known_fields)
+
     @property
     def return_type(self):
         return bool
@@ -1829,6 +1856,17 @@ class Case(Expression):
         self.when_then = when_then
         self.else_expression = else_expression
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        if self.value:
+            errors += self.value.validate(known_fields)
+        for when, then in self.when_then:
+            errors += when.validate(known_fields)
+            errors += then.validate(known_fields)
+        if self.else_expression:
+            errors += self.else_expression.validate(known_fields)
+        return errors
+
     def __str__(self):
         case_str = "CASE"
         if self.value:
-- 
2.43.0


From d49a883a1710657460f0a307b3efa3d73e292d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 047/112] fix: check the columns named by EXCEPT and used by
 REPLACE

---
 sqlvalidator/grammar/sql.py | 50 +++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b9cac00..dfa578f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -213,18 +213,22 @@ class SelectStatement:
     def _get_star_fields(self, star) -> Set[_FieldInfo]:
         fields = getattr(self.from_statement, "known_fields", set())
         excluded_names = set()
+        replaced_fields = {}
         while isinstance(star, SelectAllClause):
-            if isinstance(star, ExceptClause):
-                excluded_names |= {_get_name(arg) for arg in star.args}
+            for arg in star.args:
+                if isinstance(star, ExceptClause):
+                    excluded_names.add(_get_name(arg))
+                else:
+                    name = _get_name(arg.alias)
+                    replaced_fields[name] = _FieldInfo(
+                        name, self._get_type(arg.expression)
+                    )
             star = star.value
-        if isinstance(star, ChainedColumns) and not any(f.name == "*" for f in fields):
-            alias = _get_name(star.columns[0])
-            fields = {f for f in fields if f.name.startswith(alias + ".")}
-
-        fields = {_FieldInfo(f.name.split(".", 1)[-1], f.type) for f in fields}
-        if any(f.name == "*" for f in fields):
-            return {_FieldInfo("*", type=object)}
-        return {f for f in fields if f.name not in excluded_names}
+        return {
+            replaced_fields.get(f.name, f)
+            for f in _get_star_fields(star, fields)
+            if f.name not in excluded_names
+        }
 
     def __eq__(self, other):
         return (
@@ -366,6 +370,21 @@ def _is_star(expression: Any) -> bool:
     return isinstance(expression, Column) and expression.value == "*"
 
 
+def _get_star_fields(star: Any, known_fields: Set[_FieldInfo]) -> Set[_FieldInfo]:
+    """
+    The fields (without their aliases) of the sources that the star ranges over
+    """
+    fields = {f for f in known_fields if f.depth == 0}
+    if isinstance(star, ChainedColumns) and not any(f.name == "*" for f in fields):
+        alias = _get_name(star.columns[0])
+        fields = {f for f in fields if f.name.startswith(alias + ".")}
+
+    fields = {_FieldInfo(f.name.split(".", 1)[-1], f.type) for f in fields}
+    if any(f.name == "*" for f in fields):
+        return {_FieldInfo("*", type=object)}
+    return fields
+
+
 def _has_position(position: int, select_expressions) -> bool:
     # a star stands for any number of expressions
     return position > 0 and (
@@ -1839,13 +1858,24 @@ class SelectAllClause(Expression):
 class ExceptClause(SelectAllClause):
     KEYWORD = "EXCEPT"
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
+        names = {f.name for f in _get_star_fields(self.value, known_fields)}
+        for arg in self.args:
+            if _get_name(arg) not in names and "*" not in names:
+                errors.append("The column {} was not found".format(transform(arg)))
+        return errors
+
 
 class ReplaceClause(SelectAllClause):
     KEYWORD = "REPLACE"
 
     def validate(self, known_fields: Set[_FieldInfo]) -> list:
         errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
         for arg in self.args:
+            errors += arg.validate(known_fields)
             errors += arg.alias.validate(known_fields)
         return errors
 
-- 
2.43.0


From 588bcd7f9f195c6ef3f635a29ccaa80ed35f0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 048/112] fix: look for missing columns in DISTINCT ON and the
 order of ARRAY_AGG

---
 sqlvalidator/grammar/sql.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index dfa578f..515c723 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -156,6 +156,8 @@ class SelectStatement:
         if hasattr(self.from_statement, "known_fields"):
             known_fields = known_fields | self.from_statement.known_fields
 
+        for e in self.select_distinct_on or ():
+            errors += e.validate(known_fields | self._aliased_fields)
         for e in self.expressions:
             errors += e.validate(known_fields)
         if self.from_statement:
@@ -756,6 +758,12 @@ class ArrayAggFunctionCall(FunctionCall):
         self.order_bys = order_bys
         self.limit = limit
 
+    def validate_arguments(self, known_fields):
+        errors = super().validate_arguments(known_fields)
+        if self.order_bys:
+            errors += self.order_bys.validate(known_fields, None)
+        return errors
+
     def __str__(self):
         array_agg_str = "{}(".format(self.function_name.upper())
         if self.distinct:
-- 
2.43.0


From b79b342c05775864949c7483a38172bc85ae0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 049/112] fix: validate the sources and the ON condition of
 every join

---
 sqlvalidator/grammar/sql.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 515c723..4450f1d 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -149,10 +149,11 @@ class SelectStatement:
 
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
-        outer_known_fields = known_fields or set()
-        known_fields = {
-            _FieldInfo(f.name, f.type, f.depth + 1) for f in outer_known_fields
+        branch_known_fields = known_fields or set()
+        outer_known_fields = {
+            _FieldInfo(f.name, f.type, f.depth + 1) for f in branch_known_fields
         }
+        known_fields = outer_known_fields
         if hasattr(self.from_statement, "known_fields"):
             known_fields = known_fields | self.from_statement.known_fields
 
@@ -161,7 +162,7 @@ class SelectStatement:
         for e in self.expressions:
             errors += e.validate(known_fields)
         if self.from_statement:
-            errors += self.from_statement.validate(known_fields=set())
+            errors += _validate_source(self.from_statement, outer_known_fields)
         if self.where_clause:
             errors += self.where_clause.validate(known_fields)
         if self.group_by_clause:
@@ -171,7 +172,7 @@ class SelectStatement:
         if self.having_clause:
             errors += self.having_clause.validate(known_fields)
         for _, right_query in self.set_operations:
-            errors += right_query.validate(outer_known_fields)
+            errors += right_query.validate(branch_known_fields)
         if self.order_by_clause:
             errors += self.order_by_clause.validate(
                 known_fields | self._aliased_fields, self.expressions
@@ -387,6 +388,17 @@ def _get_star_fields(star: Any, known_fields: Set[_FieldInfo]) -> Set[_FieldInfo
     return fields
 
 
+def _validate_source(source: Any, outer_known_fields: Set[_FieldInfo]) -> list:
+    """
+    Only the conditions of joins can use the columns of the queries around
+    """
+    while isinstance(source, (Alias, Parenthesis)):
+        source = source.expression if isinstance(source, Alias) else source.args[0]
+    return source.validate(
+        outer_known_fields if isinstance(source, Join) else set(),
+    )
+
+
 def _has_position(position: int, select_expressions) -> bool:
     # a star stands for any number of expressions
     return position > 0 and (
@@ -1606,6 +1618,10 @@ class Join(Expression):
         errors = super().validate(known_fields)
         if self.join_type not in ("CROSS JOIN", ",") and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
+        errors += _validate_source(self.left_from, known_fields)
+        errors += _validate_source(self.right_from, known_fields)
+        if self.on:
+            errors += self.on.validate(known_fields | self.known_fields)
         return errors
 
     @property
@@ -1686,6 +1702,9 @@ class CombinedQueries(Expression):
 
 
 class OnClause(Expression):
+    def validate(self, known_fields):
+        return super().validate(known_fields) + self.value.validate(known_fields)
+
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-- 
2.43.0


From adf4722e69518a2239045ef5e619da02591480a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 050/112] fix: resolve the alias of a bracketed join

---
 sqlvalidator/grammar/sql.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4450f1d..0421d32 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1329,7 +1329,9 @@ class Alias(Expression):
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return {
-            _FieldInfo("{}.{}".format(_get_name(self.alias), f.name), f.type)
+            _FieldInfo(
+                "{}.{}".format(_get_name(self.alias), f.name.split(".", 1)[-1]), f.type
+            )
             for f in self.expression.known_fields
         }
 
@@ -1630,19 +1632,16 @@ class Join(Expression):
         if isinstance(self.left_from, Alias):
             left_alias = _get_name(self.left_from.alias)
             for field in self.left_from.expression.known_fields:
-                known_fields.add(_FieldInfo(left_alias + "." + field.name, field.type))
+                name = field.name.split(".", 1)[-1]
+                known_fields.add(_FieldInfo(left_alias + "." + name, field.type))
         else:
             known_fields |= self.left_from.known_fields
 
         if isinstance(self.right_from, Alias):
             right_alias = _get_name(self.right_from.alias)
             for field in self.right_from.expression.known_fields:
-                known_fields.add(
-                    _FieldInfo(
-                        right_alias + "." + field.name,
-                        field.type,
-                    )
-                )
+                name = field.name.split(".", 1)[-1]
+                known_fields.add(_FieldInfo(right_alias + "." + name, field.type))
         else:
             known_fields |= self.right_from.known_fields
 
-- 
2.43.0


From 221fba91c82716568a63d633ac075445d96af12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 051/112] fix: check the columns of USING and merge them into
 one

---
 sqlvalidator/grammar/sql.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 0421d32..9667737 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1624,8 +1624,18 @@ class Join(Expression):
         errors += _validate_source(self.right_from, known_fields)
         if self.on:
             errors += self.on.validate(known_fields | self.known_fields)
+        elif self.using:
+            for column in self.using.columns:
+                if not self._is_common(column):
+                    errors.append("The column {} was not found".format(column))
         return errors
 
+    def _is_common(self, column: Expression) -> bool:
+        return all(
+            any(f.name.split(".", 1)[-1] in (_get_name(column), "*") for f in fields)
+            for fields in (self.left_from.known_fields, self.right_from.known_fields)
+        )
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         known_fields = set()
@@ -1645,6 +1655,13 @@ class Join(Expression):
         else:
             known_fields |= self.right_from.known_fields
 
+        if self.using:
+            # these columns of both sides are merged into one without alias
+            known_fields |= {
+                _FieldInfo(_get_name(column), type=object)
+                for column in self.using.columns
+                if self._is_common(column)
+            }
         return known_fields
 
 
@@ -1714,6 +1731,10 @@ class OnClause(Expression):
 
 
 class UsingClause(Expression):
+    @property
+    def columns(self):
+        return self.value.args if isinstance(self.value, Parenthesis) else [self.value]
+
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-- 
2.43.0


From 38fa6f7c31c9b970839af79d4a0da3df02e4f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 052/112] fix: keep every character outside of the formatted
 strings when rewriting a file

---
 sqlvalidator/file_handler.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3b76d00..b3eb4af 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,3 +1,4 @@
+import io
 import os
 import sys
 import tokenize
@@ -191,7 +192,7 @@ def analyse_file(
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
 
-    with open(filename, "r") as file:
+    with open(filename, "r", newline="") as file:
         (
             count_changed_sql,
             new_content,
@@ -205,7 +206,7 @@ def analyse_file(
     if file_changed:
         starting_text = None
         if format_input:
-            with open(filename, "w") as f:
+            with open(filename, "w", newline="") as f:
                 f.write(new_content)
             starting_text = "reformatted"
         elif check:
@@ -325,7 +326,8 @@ def compute_file_content(
         else:
             tokens += following_tokens
 
-    token_generator = tokenize.generate_tokens(file.readline)
+    content = file.read()
+    token_generator = tokenize.generate_tokens(io.StringIO(content).readline)
     for token_type, token_value, starting, ending, line in token_generator:
         if token_type == tokenize.STRING:
             handle_string_token(
@@ -334,10 +336,29 @@ def compute_file_content(
         else:
             tokens.append((token_type, token_value, starting, ending, line))
 
-    formatted_file_content = tokenize.untokenize(tokens)
+    formatted_file_content = replace_strings(content, tokens)
     return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
 
 
+def replace_strings(content: str, tokens: list) -> str:
+    """
+    Put the (formatted) strings in place, and leave everything else as it is.
+    """
+    line_starts = [0, 0]
+    for line in io.StringIO(content):
+        line_starts.append(line_starts[-1] + len(line))
+
+    pieces = []
+    position = 0
+    for token_type, token_value, starting, ending, _ in tokens:
+        if token_type == tokenize.STRING:
+            pieces.append(content[position : line_starts[starting[0]] + starting[1]])
+            pieces.append(token_value)
+            position = line_starts[ending[0]] + ending[1]
+    pieces.append(content[position:])
+    return "".join(pieces)
+
+
 def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     """
     Read a SQL string as input, potentially with quotes or not,
-- 
2.43.0


From 351c84858a3b245f7782a54a5c3cc408630b27bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 053/112] fix: do not take the content of the next string for a
 comment

---
 sqlvalidator/file_handler.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index b3eb4af..a5d5bb3 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -292,16 +292,12 @@ def compute_file_content(
                 (next_token, next_token_value, next_starting, next_ending, next_line)
             )
 
-        needs_format = should_format and NO_SQLFORMAT_COMMENT not in next_token_value
-        needs_validate = (
-            should_validate and NO_SQLVALIDATION_COMMENT not in next_token_value
-        )
+        comment = next_token_value if next_token == tokenize.COMMENT else ""
+        needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
+        needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
         if next_token != tokenize.COMMENT or needs_format or needs_validate:
             formatted_sql, sql_query = handle_sql_string(token_value)
-            if (
-                formatted_sql != token_value
-                and NO_SQLFORMAT_COMMENT not in next_token_value
-            ):
+            if formatted_sql != token_value and NO_SQLFORMAT_COMMENT not in comment:
                 tokens.append((token_type, formatted_sql, starting, ending, line))
                 count_changed_sql += 1
             else:
-- 
2.43.0


From f810ccefacc41fed1a95681390269e1ef315675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 054/112] fix: handle files with many consecutive SQL strings

---
 sqlvalidator/file_handler.py | 117 +++++++++--------------------------
 1 file changed, 30 insertions(+), 87 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index a5d5bb3..bed0ed1 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,4 +1,5 @@
 import io
+import itertools
 import os
 import sys
 import tokenize
@@ -243,97 +244,39 @@ def compute_file_content(
     count_changed_sql = 0
     count_has_errors = 0
     errors_locations = []
-    tokens = []
+    formatted_tokens = []
 
-    def handle_string_token(
-        token_generator, token_type, token_value, starting, ending, line
-    ):
-        nonlocal tokens
-        nonlocal count_changed_sql
-        nonlocal count_has_errors
-        nonlocal errors_locations
-
-        if not is_select_string(token_value):
-            tokens.append((token_type, token_value, starting, ending, line))
-            return
-
-        following_tokens = []
-        # Find if the next comment without a string in-between if there is one
-        next_token, next_token_value, next_starting, next_ending, next_line = next(
-            token_generator, (None, None, None, None, None)
-        )
-        if next_token is None:
-            formatted_sql, sql_query = handle_sql_string(token_value)
-            tokens.append((token_type, formatted_sql, starting, ending, line))
-            tokens += following_tokens
-            if formatted_sql != token_value:
-                count_changed_sql += 1
-            if not sql_query.is_valid():
-                count_has_errors += 1
-                errors_locations.append((starting[0], sql_query.errors))
-            return
-
-        following_tokens.append(
-            (next_token, next_token_value, next_starting, next_ending, next_line)
-        )
-        while (
-            next_token
-            and next_token != tokenize.COMMENT
-            and next_token != tokenize.STRING
-        ):
-            next_token, next_token_value, next_starting, next_ending, next_line = next(
-                token_generator, (None, None, None, None, None)
-            )
-            if next_token is None:
-                tokens.append((token_type, token_value, starting, ending, line))
-                tokens += following_tokens
-                return
-            following_tokens.append(
-                (next_token, next_token_value, next_starting, next_ending, next_line)
-            )
-
-        comment = next_token_value if next_token == tokenize.COMMENT else ""
-        needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
-        needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
-        if next_token != tokenize.COMMENT or needs_format or needs_validate:
-            formatted_sql, sql_query = handle_sql_string(token_value)
-            if formatted_sql != token_value and NO_SQLFORMAT_COMMENT not in comment:
-                tokens.append((token_type, formatted_sql, starting, ending, line))
-                count_changed_sql += 1
-            else:
-                tokens.append((token_type, token_value, starting, ending, line))
-            if needs_validate and not sql_query.is_valid():
-                count_has_errors += 1
-                errors_locations.append((starting[0], sql_query.errors))
+    content = file.read()
+    tokens = list(tokenize.generate_tokens(io.StringIO(content).readline))
+    for index, (token_type, token_value, starting, ending, line) in enumerate(tokens):
+        if token_type == tokenize.STRING and is_select_string(token_value):
+            comment = get_comment(tokens, index)
+            needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
+            needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
+            if needs_format or needs_validate:
+                formatted_sql, sql_query = handle_sql_string(token_value)
+                if needs_validate and not sql_query.is_valid():
+                    count_has_errors += 1
+                    errors_locations.append((starting[0], sql_query.errors))
+                if needs_format and formatted_sql != token_value:
+                    token_value = formatted_sql
+                    count_changed_sql += 1
+        formatted_tokens.append((token_type, token_value, starting, ending, line))
+
+    formatted_file_content = replace_strings(content, formatted_tokens)
+    return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
 
-        else:
-            tokens.append((token_type, token_value, starting, ending, line))
-
-        if next_token == tokenize.STRING:
-            tokens += following_tokens[:-1]
-            handle_string_token(
-                token_generator,
-                next_token,
-                next_token_value,
-                next_starting,
-                next_ending,
-                next_line,
-            )
-        else:
-            tokens += following_tokens
 
-    content = file.read()
-    token_generator = tokenize.generate_tokens(io.StringIO(content).readline)
-    for token_type, token_value, starting, ending, line in token_generator:
+def get_comment(tokens: list, index: int) -> str:
+    """
+    The next comment after this string, if there is no other string in between
+    """
+    for token_type, token_value, _, _, _ in itertools.islice(tokens, index + 1, None):
+        if token_type == tokenize.COMMENT:
+            return token_value
         if token_type == tokenize.STRING:
-            handle_string_token(
-                token_generator, token_type, token_value, starting, ending, line
-            )
-        else:
-            tokens.append((token_type, token_value, starting, ending, line))
-
-    formatted_file_content = replace_strings(content, tokens)
-    return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
+            break
+    return ""
 
 
 def replace_strings(content: str, tokens: list) -> str:
-- 
2.43.0


From 3c882a39fea44d461128de157c6df3baaef8a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 055/112] fix: stop at f-strings when looking for the comment
 of a string

---
 sqlvalidator/file_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index bed0ed1..6eafd00 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -41,6 +41,8 @@ STRING_PREFIXES = (
     "Rb",
     "RB",
 )
+# f-strings consist of several tokens since Python 3.12
+STRING_TOKENS = (tokenize.STRING, getattr(tokenize, "FSTRING_START", tokenize.STRING))
 
 
 class InputSQLAnalyseInfo:
@@ -274,7 +276,7 @@ def get_comment(tokens: list, index: int) -> str:
     for token_type, token_value, _, _, _ in itertools.islice(tokens, index + 1, None):
         if token_type == tokenize.COMMENT:
             return token_value
-        if token_type == tokenize.STRING:
+        if token_type in STRING_TOKENS:
             break
     return ""
 
-- 
2.43.0


From 63658a2401e8bd74ca1c6449156b2b924ad88b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 056/112] fix: leave the parts of implicitly concatenated
 strings alone

---
 sqlvalidator/file_handler.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 6eafd00..d9f9a57 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -43,6 +43,10 @@ STRING_PREFIXES = (
 )
 # f-strings consist of several tokens since Python 3.12
 STRING_TOKENS = (tokenize.STRING, getattr(tokenize, "FSTRING_START", tokenize.STRING))
+END_OF_STRING_TOKENS = (
+    tokenize.STRING,
+    getattr(tokenize, "FSTRING_END", tokenize.STRING),
+)
 
 
 class InputSQLAnalyseInfo:
@@ -251,7 +255,11 @@ def compute_file_content(
     content = file.read()
     tokens = list(tokenize.generate_tokens(io.StringIO(content).readline))
     for index, (token_type, token_value, starting, ending, line) in enumerate(tokens):
-        if token_type == tokenize.STRING and is_select_string(token_value):
+        if (
+            token_type == tokenize.STRING
+            and is_select_string(token_value)
+            and not is_concatenated(tokens, index)
+        ):
             comment = get_comment(tokens, index)
             needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
             needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
@@ -269,6 +277,24 @@ def compute_file_content(
     return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
 
 
+def is_concatenated(tokens: list, index: int) -> bool:
+    """
+    Does this string only hold a part of the SQL: is it next to another string
+    """
+    next_tokens = itertools.islice(tokens, index + 1, None)
+    previous_tokens = reversed(tokens[:index])
+    for neighbours, string_tokens in (
+        (next_tokens, STRING_TOKENS),
+        (previous_tokens, END_OF_STRING_TOKENS),
+    ):
+        for token_type, _, _, _, _ in neighbours:
+            if token_type in string_tokens:
+                return True
+            if token_type not in (tokenize.NL, tokenize.COMMENT):
+                break
+    return False
+
+
 def get_comment(tokens: list, index: int) -> str:
     """
     The next comment after this string, if there is no other string in between
-- 
2.43.0


From 004968a7a636cb5b0e39fb0c049fd6ff4cf9f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:38 +0000
Subject: [PATCH 057/112] fix: separate a quote at the end of the SQL from the
 closing quotes

---
 sqlvalidator/file_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index d9f9a57..b834d40 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -371,7 +371,9 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     else:
         new_quotes = quotes
 
-    if len(new_quotes) == 3 and "\n" in formatted_sql:
+    if len(new_quotes) == 3 and (
+        "\n" in formatted_sql or formatted_sql.endswith(new_quotes[0])
+    ):
         quoted_sql = "{prefix}{quotes}\n{sql}\n{quotes}".format(
             prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
         )
-- 
2.43.0


From 987b1c730615b9725b2811c624cd52d3f8acbf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 058/112] fix: format the SQL that a string with escapes stands
 for

---
 sqlvalidator/file_handler.py | 47 ++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index b834d40..da9739d 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,3 +1,4 @@
+import ast
 import io
 import itertools
 import os
@@ -355,11 +356,8 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
 
     assert quotes is not None, "Could not find quotes"
 
-    if quotes_prefix is not None:
-        sql_string = sql_string[len(quotes_prefix) :]
-    sql_string_without_quotes = sql_string[len(quotes) : -len(quotes)]
-
-    sql_query = sql_validator.SQLQuery(sql_string_without_quotes)
+    sql = evaluate_string(sql_string)
+    sql_query = sql_validator.SQLQuery(sql)
     formatted_sql = sql_query.format()
 
     if len(quotes) == 1 and "\n" in formatted_sql:
@@ -374,14 +372,37 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     if len(new_quotes) == 3 and (
         "\n" in formatted_sql or formatted_sql.endswith(new_quotes[0])
     ):
-        quoted_sql = "{prefix}{quotes}\n{sql}\n{quotes}".format(
-            prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
-        )
-    else:
-        quoted_sql = "{prefix}{quotes}{sql}{quotes}".format(
-            prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
-        )
-    return quoted_sql, sql_query
+        formatted_sql = "\n{}\n".format(formatted_sql)
+
+    if sql == formatted_sql and quotes == new_quotes:
+        return sql_string, sql_query
+
+    quoted_sql = "{prefix}{quotes}{sql}{quotes}".format(
+        prefix=quotes_prefix or "",
+        quotes=new_quotes,
+        sql=(
+            formatted_sql
+            if set("rf") & set((quotes_prefix or "").lower())
+            else escape_string(formatted_sql, new_quotes)
+        ),
+    )
+    try:
+        is_same_sql = evaluate_string(quoted_sql) == formatted_sql
+    except (SyntaxError, ValueError):
+        is_same_sql = False
+    return quoted_sql if is_same_sql else sql_string, sql_query
+
+
+def evaluate_string(string: str) -> str:
+    if string[: string.index(string[-1])].lower() in ("f", "fr", "rf"):
+        return string.lstrip("frFR").strip(string[-1])  # before Python 3.12
+    value = ast.literal_eval(string)
+    return value.decode("latin-1") if isinstance(value, bytes) else value
+
+
+def escape_string(value: str, quotes: str) -> str:
+    value = value.replace("\\", "\\\\").replace("\r", "\\r")
+    return value.replace(quotes, "".join("\\" + quote for quote in quotes))
 
 
 def is_select_string(token_value: str) -> bool:
-- 
2.43.0


From c5de687e39c3e13630e29d32eba7893da0c87c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 059/112] fix: end the lines of formatted strings like those of
 their file

---
 sqlvalidator/file_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index da9739d..40751eb 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -270,6 +270,8 @@ def compute_file_content(
                     count_has_errors += 1
                     errors_locations.append((starting[0], sql_query.errors))
                 if needs_format and formatted_sql != token_value:
+                    if "\r\n" in content:
+                        formatted_sql = formatted_sql.replace("\n", "\r\n")
                     token_value = formatted_sql
                     count_changed_sql += 1
         formatted_tokens.append((token_type, token_value, starting, ending, line))
-- 
2.43.0


From 028c6c8963621c24cc26066b0311bbb541f7c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 060/112] fix: read and write a file in the encoding it
 declares

---
 sqlvalidator/file_handler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 40751eb..3ed4316 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -200,7 +200,10 @@ def analyse_file(
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
 
-    with open(filename, "r", newline="") as file:
+    with open(filename, "rb") as binary_file:
+        encoding, _ = tokenize.detect_encoding(binary_file.readline)
+
+    with open(filename, "r", encoding=encoding, newline="") as file:
         (
             count_changed_sql,
             new_content,
@@ -214,8 +217,9 @@ def analyse_file(
     if file_changed:
         starting_text = None
         if format_input:
-            with open(filename, "w", newline="") as f:
-                f.write(new_content)
+            encoded_content = new_content.encode(encoding)
+            with open(filename, "wb") as f:
+                f.write(encoded_content)
             starting_text = "reformatted"
         elif check:
             starting_text = "would reformat"
-- 
2.43.0


From 795a2b6837fcd39cae393904093acbd90fb1e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 061/112] fix: recognise a SELECT string by its first word
 only, whatever whitespace follows

---
 sqlvalidator/file_handler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3ed4316..509cd4c 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -2,6 +2,7 @@ import ast
 import io
 import itertools
 import os
+import re
 import sys
 import tokenize
 from typing import IO, List, Optional, Set, Tuple
@@ -42,6 +43,9 @@ STRING_PREFIXES = (
     "Rb",
     "RB",
 )
+SELECT_STRING_PATTERN = re.compile(
+    r"[a-z]*({})\s*select\s".format("|".join(POSSIBLE_QUOTES)), re.IGNORECASE
+)
 # f-strings consist of several tokens since Python 3.12
 STRING_TOKENS = (tokenize.STRING, getattr(tokenize, "FSTRING_START", tokenize.STRING))
 END_OF_STRING_TOKENS = (
@@ -412,11 +416,7 @@ def escape_string(value: str, quotes: str) -> str:
 
 
 def is_select_string(token_value: str) -> bool:
-    cleaned_value = token_value.lower().lstrip(" \n'\"`ufbr")
-    lines = cleaned_value.splitlines()
-    if not lines:
-        return False
-    return lines[0].split(" ", maxsplit=1)[0] == "select"
+    return SELECT_STRING_PATTERN.match(token_value) is not None
 
 
 def print_format_summary(num_changed_files: int, changed_sql: int, check: bool):
-- 
2.43.0


From 5bfc90d238462737b60231d8a45341b98e2f1c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 062/112] fix: refuse SQL with a missing closing parenthesis
 instead of adding it

---
 sqlvalidator/grammar/tokeniser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 67ae847..4f3b44f 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -63,6 +63,8 @@ def get_tokens_until_closing_parenthesis(tokens, first_token=None):
             count_parenthesis -= 1
         next_token = next(tokens, None)
 
+    if next_token is None:
+        raise ValueError("Did not find closing parenthesis")
     return argument_tokens
 
 
-- 
2.43.0


From 6057b48038014b2ee37bff1b29785ea4c8fb358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 063/112] fix: refuse punctuation in place of a name

---
 sqlvalidator/grammar/lexer.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 2eb75b3..c7aff90 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -52,6 +52,8 @@ from sqlvalidator.grammar.sql import (
 )
 from sqlvalidator.grammar.tokeniser import (
     FLOAT_PATTERN,
+    KEPT_SPLIT_TOKENS,
+    MERGE_TOKENS,
     get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
@@ -60,6 +62,9 @@ from sqlvalidator.grammar.tokeniser import (
 )
 
 
+NOT_NAME_TOKENS = set(KEPT_SPLIT_TOKENS + MERGE_TOKENS) - {"*"}
+
+
 class ParsingError(Exception):
     pass
 
@@ -72,6 +77,11 @@ def check_no_remaining_token(tokens, next_token):
         next_token = next(tokens, None)
 
 
+def check_is_name(token):
+    if token in NOT_NAME_TOKENS:
+        raise ParsingError("Unexpected {}".format(token))
+
+
 class SQLStatementParser:
     @staticmethod
     def parse(tokens):
@@ -272,6 +282,8 @@ class FromStatementParser:
                 alias = next_token
             if alias in String.QUOTES:
                 alias = StringParser.parse(tokens, alias)
+            else:
+                check_is_name(alias)
             expression = Alias(expression, alias, with_as)
             next_token = next(tokens, None)
 
@@ -304,6 +316,8 @@ class FromStatementParser:
                     alias = next_token
                 if alias in String.QUOTES:
                     alias = StringParser.parse(tokens, alias)
+                else:
+                    check_is_name(alias)
                 expression = Alias(expression, alias, with_as)
                 next_token = next(tokens, None)
 
@@ -346,6 +360,8 @@ class FromStatementParser:
                     alias = next_token
                 if alias in String.QUOTES:
                     alias = StringParser.parse(tokens, alias)
+                else:
+                    check_is_name(alias)
                 expression = Alias(expression, alias, with_as)
                 next_token = next(tokens, None)
 
@@ -384,6 +400,8 @@ class UnnestParser:
                 alias = next_token
             if alias in String.QUOTES:
                 alias = StringParser.parse(tokens, alias)
+            else:
+                check_is_name(alias)
             expression = Alias(expression, alias, with_as)
             next_token = next(tokens, None)
 
@@ -885,6 +903,7 @@ class ExpressionParser:
                     next_token = next(tokens, None)
                 expression = Interval(interval_value, interval_part)
             else:
+                check_is_name(main_token)
                 expression = Column(main_token)
 
         if lower(next_token) == "over":
@@ -1056,6 +1075,8 @@ class ExpressionParser:
                 alias = next_token
                 if alias in String.QUOTES:
                     alias = StringParser.parse(tokens, alias)
+                else:
+                    check_is_name(alias)
                 next_token = next(tokens, None)
             return Alias(expression, alias, with_as), next_token
         return expression, next_token
-- 
2.43.0


From f61c3fd9b4f070dad7919cdc1648e7d022d6c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 064/112] fix: never report SQL valid that cannot be parsed

---
 sqlvalidator/sql_validator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index 6b59695..55a0bc6 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -27,11 +27,13 @@ class SQLQuery:
         return len(self.errors) == 0
 
     def _validate(self):
-        self.validated = True
         try:
-            self.errors = self.sql_query.validate()
-        except ParsingError as ex:
-            self.errors.append(str(ex))
+            sql_query = self.sql_query
+        except (ParsingError, ValueError, AssertionError, StopIteration) as ex:
+            self.errors = [str(ex) or type(ex).__name__]
+        else:
+            self.errors = sql_query.validate()
+        self.validated = True
 
 
 def parse(sql: str) -> SQLQuery:
-- 
2.43.0


From a3ffc1cba409c2485175baf9ca49afe99e766796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:26 +0000
Subject: [PATCH 065/112] fix: do not take keywords and functions without
 parentheses for missing columns

---
 sqlvalidator/grammar/sql.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 9667737..6c27e24 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -936,6 +936,17 @@ class Column(Expression):
         "saturday",
         "sunday",
     )
+    # which are called without parentheses
+    FUNCTIONS = (
+        "current_date",
+        "current_time",
+        "current_timestamp",
+        "current_datetime",
+        "localtime",
+        "localtimestamp",
+        "current_user",
+        "session_user",
+    )
 
     def __str__(self):
         if lower(self.value) in self.KEYWORDS:
@@ -944,7 +955,11 @@ class Column(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        if self.value != "*" and not any(f.name == "*" for f in known_fields):
+        if (
+            self.value != "*"
+            and lower(self.value) not in self.KEYWORDS + self.FUNCTIONS
+            and not any(f.name == "*" for f in known_fields)
+        ):
             fields = _get_nearest_fields(self.value, known_fields)
             if len(fields) > 1:
                 errors.append('column "{}" is ambiguous'.format(self.value))
@@ -952,7 +967,6 @@ class Column(Expression):
                 errors.append("The column {} was not found".format(self.value))
         return errors
 
-
     def resolve_return_type(self, known_fields):
         fields = _get_nearest_fields(self.value, known_fields)
         return fields[0].type if len(fields) == 1 else object
-- 
2.43.0


From 38f820180f11de6f194f52d8e9c026e8877abe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 066/112] fix: do not take the date parts of function calls for
 missing columns

---
 sqlvalidator/grammar/sql.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6c27e24..fb43f6d 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -708,7 +708,10 @@ class FunctionCall(Expression):
     def validate_arguments(self, known_fields):
         errors = []
         for a in self.args:
-            errors += a.validate(known_fields)
+            if not (
+                isinstance(a, Column) and lower(a.value) in DatePartExtraction.PARTS
+            ):
+                errors += a.validate(known_fields)
         return errors
 
     def __repr__(self):
@@ -1093,6 +1096,24 @@ class DatePartExtraction(Expression):
         "dayofweek",
         "dayofyear",
         "date",
+        "time",
+        "datetime",
+        "nanosecond",
+        "microseconds",
+        "millisecond",
+        "milliseconds",
+        "isoweek",
+        "isoyear",
+        "isodow",
+        "dow",
+        "doy",
+        "decade",
+        "century",
+        "millennium",
+        "epoch",
+        "timezone",
+        "timezone_hour",
+        "timezone_minute",
     )
 
     def __init__(self, part, date_expression):
-- 
2.43.0


From 9e8f386fe17297ab340e8f7d022725f35cb3f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 067/112] fix: let a query provide the columns it selects by a
 quoted name

---
 sqlvalidator/grammar/sql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index fb43f6d..88061cb 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -209,8 +209,10 @@ class SelectStatement:
                 fields |= self._get_star_fields(e)
             elif isinstance(e, ChainedColumns):
                 fields.add(_FieldInfo(_get_name(e.last_column), self._get_type(e)))
-            elif isinstance(e, Column):
-                fields.add(_FieldInfo(e.value, self._get_type(e)))
+            elif isinstance(e, Column) or (
+                isinstance(e, String) and e.quotes != "'"
+            ):
+                fields.add(_FieldInfo(_get_name(e), self._get_type(e)))
         return fields
 
     def _get_star_fields(self, star) -> Set[_FieldInfo]:
-- 
2.43.0


From 3a835d1249ea2d7659b5d24fa3fab478e625cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 068/112] fix: do not take placeholders for missing columns

---
 sqlvalidator/grammar/sql.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 88061cb..8c330ae 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1,3 +1,4 @@
+import re
 from dataclasses import dataclass
 from typing import Any, List, Optional, Set
 
@@ -213,6 +214,8 @@ class SelectStatement:
                 isinstance(e, String) and e.quotes != "'"
             ):
                 fields.add(_FieldInfo(_get_name(e), self._get_type(e)))
+            if isinstance(e, Column) and e.is_placeholder:
+                fields.add(_FieldInfo("*", type=object))
         return fields
 
     def _get_star_fields(self, star) -> Set[_FieldInfo]:
@@ -457,6 +460,8 @@ class GroupByClause(Expression):
                 errors.append(
                     "GROUP BY position {} is not in select list".format(arg.value)
                 )
+            elif isinstance(arg, Column) and arg.is_placeholder:
+                continue
             elif not isinstance(arg, (Integer, Column, String)):
                 errors += arg.validate(known_fields)
             elif isinstance(arg, (Column, String)) and not any(
@@ -962,6 +967,7 @@ class Column(Expression):
         errors = super().validate(known_fields)
         if (
             self.value != "*"
+            and not self.is_placeholder
             and lower(self.value) not in self.KEYWORDS + self.FUNCTIONS
             and not any(f.name == "*" for f in known_fields)
         ):
@@ -972,6 +978,11 @@ class Column(Expression):
                 errors.append("The column {} was not found".format(self.value))
         return errors
 
+    @property
+    def is_placeholder(self):
+        # e.g. {}, %s or :name, which can stand for anything
+        return re.fullmatch(r"[^\W\d][\w$]*|[*]", self.value) is None
+
     def resolve_return_type(self, known_fields):
         fields = _get_nearest_fields(self.value, known_fields)
         return fields[0].type if len(fields) == 1 else object
@@ -1022,6 +1033,8 @@ class ChainedColumns(Expression):
             column = column.value
         if isinstance(column, FunctionCall):
             return errors  # the prefix is a part of the name of the function
+        if any(isinstance(c, Column) and c.is_placeholder for c in self.all_columns):
+            return errors
 
         alias = _get_name(first_column)
         name = _get_name(column)
-- 
2.43.0


From 546d9f5e2471dbd0bc98b4f86bf582fb24f4c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 069/112] fix: resolve what follows a set operation against its
 first query

---
 sqlvalidator/grammar/lexer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index c7aff90..717d603 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -479,8 +479,17 @@ class SetOperationParser:
         )
         set_operator = SetOperatorTypeParser.parse(iter(operator_tokens))
         if lower(next_token) == "select":
-            # this query reads up to the end, including further set operations
-            return set_operator, SelectStatementParser.parse(tokens), None
+            # what follows the last query belongs to the whole
+            query_tokens, next_token = get_tokens_until_one_of(
+                tokens,
+                SelectStatementParser.keywords[4:],
+                keep=[("*", "except"), ("with", "offset")],
+            )
+            return (
+                set_operator,
+                SelectStatementParser.parse(iter(query_tokens)),
+                next_token,
+            )
         if next_token == "(":
             query_tokens = ["("] + get_tokens_until_closing_parenthesis(tokens) + [")"]
             next_token = next(tokens, None)
-- 
2.43.0


From b0ace2c096caf598a2809cc4b1f43906c911792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 070/112] fix: read a date part as such in TIMESTAMP_TRUNC
 only, wherever it is called

---
 sqlvalidator/grammar/lexer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 717d603..54a150f 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -816,9 +816,7 @@ class ExpressionParser:
                     )
                     if distinct:
                         argument_tokens = argument_tokens[1:]
-                    arguments_can_be_type = can_be_type or any(
-                        lower(t) == "timestamp_trunc" for t in argument_tokens
-                    )
+                    arguments_can_be_type = lower(main_token) == "timestamp_trunc"
                     arguments = ExpressionListParser.parse(
                         iter(argument_tokens), can_be_type=arguments_can_be_type
                     )
-- 
2.43.0


From 62969aaad501b21f010a754b7947d12910c620eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 071/112] fix: accept quoted names of WITH queries

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 54a150f..c6b5a77 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -446,6 +446,8 @@ class WithStatementParser:
         with_query_name = None
         while lower(with_query_name) != "select":
             with_query_name = next(tokens)
+            if with_query_name in String.QUOTES:
+                with_query_name = StringParser.parse(tokens, with_query_name)
             next_token = next(tokens)
             assert lower(next_token) == "as", next_token
             next_token = next(tokens)
-- 
2.43.0


From 6604c57b971ca064e061c1ad293ead4a14faf641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 072/112] fix: GROUP BY a literal or a name that is always
 available is not a missing column

---
 sqlvalidator/grammar/sql.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8c330ae..a956a7e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -460,7 +460,9 @@ class GroupByClause(Expression):
                 errors.append(
                     "GROUP BY position {} is not in select list".format(arg.value)
                 )
-            elif isinstance(arg, Column) and arg.is_placeholder:
+            elif isinstance(arg, Column) and arg.is_self_contained:
+                continue
+            elif isinstance(arg, String) and arg.return_type is str:
                 continue
             elif not isinstance(arg, (Integer, Column, String)):
                 errors += arg.validate(known_fields)
@@ -967,8 +969,7 @@ class Column(Expression):
         errors = super().validate(known_fields)
         if (
             self.value != "*"
-            and not self.is_placeholder
-            and lower(self.value) not in self.KEYWORDS + self.FUNCTIONS
+            and not self.is_self_contained
             and not any(f.name == "*" for f in known_fields)
         ):
             fields = _get_nearest_fields(self.value, known_fields)
@@ -978,6 +979,12 @@ class Column(Expression):
                 errors.append("The column {} was not found".format(self.value))
         return errors
 
+    @property
+    def is_self_contained(self):
+        return self.is_placeholder or lower(self.value) in (
+            self.KEYWORDS + self.FUNCTIONS
+        )
+
     @property
     def is_placeholder(self):
         # e.g. {}, %s or :name, which can stand for anything
-- 
2.43.0


From 77dd90520bd2490f10f0a010ec3572a7deb2ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:01 +0000
Subject: [PATCH 073/112] fix: conditions of joins after a cross join can use
 the columns of both sides

---
 sqlvalidator/grammar/lexer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index c6b5a77..4f1e18d 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -329,7 +329,10 @@ class FromStatementParser:
             join_type = JoinTypeParser.parse(iter(expression_tokens))
 
             if join_type in ("CROSS JOIN", ","):
-                expression_tokens, next_token = [next_token] + list(tokens), None
+                # the joins that follow belong to both sides
+                expression_tokens, next_token = get_tokens_until_one_of(
+                    tokens, Join.VALUES + ("on", "using"), first_token=next_token
+                )
             else:
                 expression_tokens, next_token = get_tokens_until_one_of(
                     tokens, ("on", "using"), first_token=next_token
@@ -338,10 +341,11 @@ class FromStatementParser:
             on = None
             using = None
             on_or_using = next_token
-            expression_tokens, next_token = get_tokens_until_one_of(
-                tokens,
-                Join.VALUES,
-            )
+            if lower(on_or_using) in ("on", "using"):
+                expression_tokens, next_token = get_tokens_until_one_of(
+                    tokens,
+                    Join.VALUES,
+                )
             if lower(on_or_using) == "on":
                 expression = ExpressionParser.parse_all(iter(expression_tokens))
                 on = OnClause(expression)
-- 
2.43.0


From 278312f3ccef38a5a6ca339917a150efe5a615af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 074/112] fix: keep literals and names of a window frame as
 they are

---
 sqlvalidator/grammar/lexer.py | 14 +++++++++++++-
 sqlvalidator/grammar/sql.py   | 27 ++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 4f1e18d..8884391 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -49,6 +49,7 @@ from sqlvalidator.grammar.sql import (
     WindowFrameClause,
     WithQuery,
     WithStatement,
+    transform,
 )
 from sqlvalidator.grammar.tokeniser import (
     FLOAT_PATTERN,
@@ -952,7 +953,7 @@ class ExpressionParser:
                 rows_range = argument_next_token
                 expression_tokens, _ = get_tokens_until_one_of(argument_tokens, [])
                 frame_clause: Optional[WindowFrameClause] = WindowFrameClause(
-                    rows_range, " ".join(expression_tokens)
+                    rows_range, WindowFrameParser.parse(iter(expression_tokens))
                 )
             else:
                 check_no_remaining_token(argument_tokens, argument_next_token)
@@ -1095,6 +1096,17 @@ class ExpressionParser:
         return expression, next_token
 
 
+class WindowFrameParser:
+    @staticmethod
+    def parse(tokens) -> str:
+        frame = []
+        for token in tokens:
+            if token in String.QUOTES:
+                token = transform(StringParser.parse(tokens, token))
+            frame.append(token)
+        return " ".join(frame)
+
+
 class StringParser:
     @staticmethod
     def parse(tokens, start_quote, prefix=None):
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a956a7e..f517ec9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -907,12 +907,37 @@ class AnalyticsClause(Expression):
 
 
 class WindowFrameClause(Expression):
+    KEYWORDS = (
+        "between",
+        "and",
+        "unbounded",
+        "preceding",
+        "following",
+        "current",
+        "row",
+        "exclude",
+        "group",
+        "ties",
+        "no",
+        "others",
+        "interval",
+    )
+    WORD_OR_LITERAL_PATTERN = re.compile(
+        r"""(['"`])(?:\\.|\1\1|(?!\1).)*\1|(?<!\S)\w+(?!\S)"""
+    )
+
     def __init__(self, rows_range, frame):
         self.rows_range = rows_range
         self.frame = frame
 
     def __str__(self):
-        return "{} {}".format(self.rows_range.upper(), self.frame.upper())
+        frame_str = self.WORD_OR_LITERAL_PATTERN.sub(
+            lambda match: match.group().upper()
+            if lower(match.group()) in self.KEYWORDS + DatePartExtraction.PARTS
+            else match.group(),
+            self.frame,
+        )
+        return "{} {}".format(self.rows_range.upper(), frame_str)
 
     def __repr__(self):
         return """<{}:
-- 
2.43.0


From f4330f23a5b4f0ad588bc0c3d2c7f84806e44b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:55 +0000
Subject: [PATCH 075/112] fix: formatting a long chain of conditions takes time
 in proportion to its length, not exponential

---
 sqlvalidator/grammar/sql.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f517ec9..1d67b8c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1888,10 +1888,11 @@ class BooleanCondition(Expression):
         self.args = args
 
     def transform(self, with_newline=False):
-        join_str = " {} ".format(self.type.upper())
-        transformed_condition = join_str.join(map(transform, self.args))
-        if len(transformed_condition) < DEFAULT_LINE_LENGTH and with_newline is False:
-            return transformed_condition
+        if with_newline is False:
+            join_str = " {} ".format(self.type.upper())
+            transformed_condition = join_str.join(map(transform, self.args))
+            if len(transformed_condition) < DEFAULT_LINE_LENGTH:
+                return transformed_condition
 
         join_str = "\n{} ".format(self.type.upper())
         transformed_args = []
-- 
2.43.0


From e12150151aeb246d4c5e61e4ded1044aedcd0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:14 +0000
Subject: [PATCH 076/112] fix: the columns of a source are looked up once, not
 once per column and level of nesting

---
 sqlvalidator/grammar/sql.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 1d67b8c..4ce5e68 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -30,6 +30,20 @@ class _FieldInfo:
         return hash(self.name)
 
 
+def _computed_once(compute):
+    """
+    A property of a parsed statement, which does not change any more
+    """
+    name = "_computed_{}".format(compute.__name__)
+
+    def get(self):
+        if name not in self.__dict__:
+            self.__dict__[name] = frozenset(compute(self))
+        return self.__dict__[name]
+
+    return property(get)
+
+
 def _get_name(name: Any) -> str:
     """
     The name itself, of an alias or a column: without the quotes it is written with
@@ -202,7 +216,7 @@ class SelectStatement:
         source_fields = getattr(self.from_statement, "known_fields", set())
         return expression.resolve_return_type(source_fields)
 
-    @property
+    @_computed_once
     def known_fields(self) -> Set[_FieldInfo]:
         fields = self._aliased_fields
         for e in self.expressions:
@@ -1718,7 +1732,7 @@ class Join(Expression):
             for fields in (self.left_from.known_fields, self.right_from.known_fields)
         )
 
-    @property
+    @_computed_once
     def known_fields(self) -> Set[_FieldInfo]:
         known_fields = set()
         if isinstance(self.left_from, Alias):
-- 
2.43.0


From 9e5f01c54196c87b54c42311de0ba6ae4f3ff4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:48 +0000
Subject: [PATCH 077/112] fix: a subquery without parentheses in a condition,
 and a missing query after a set operator, are parsing errors

---
 sqlvalidator/grammar/lexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 8884391..24422c9 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -299,6 +299,8 @@ class FromStatementParser:
                 CombinedQueries.SET_OPERATORS,
                 first_token=next_token,
             )
+            if not expression_tokens:
+                raise ParsingError("Missing query after {}".format(set_operator))
             if lower(expression_tokens[0]) == "select":
                 right_expr = SelectStatementParser.parse(iter(expression_tokens[1:]))
             else:
@@ -717,6 +719,8 @@ class ExpressionParser:
             next_token = next(tokens, None)
             expression = CaseParser.parse(iter(argument_tokens))
         elif lower(main_token) == "select":
+            if is_right_hand:
+                raise ParsingError("Missing parentheses around subquery")
             argument_tokens, next_token = get_tokens_until_one_of(tokens, [])
             next_token = next(tokens, None)
             expression = SelectStatementParser.parse(iter(argument_tokens))
@@ -1045,6 +1049,8 @@ class ExpressionParser:
             if isinstance(right_hand, Alias):
                 right_alias = right_hand
                 right_hand = right_hand.expression
+            if isinstance(right_hand, SelectStatement):
+                raise ParsingError("Missing parentheses around subquery")
             expression = BooleanCondition(symbol, left_hand, right_hand)
             if right_alias is not None:
                 right_alias.expression = expression
-- 
2.43.0


From e79a6eef2b9a7319d5fb4bdb41002a03d5c09d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:55 +0000
Subject: [PATCH 078/112] fix: a WHERE or HAVING condition that is a subquery
 without parentheses is a parsing error

---
 sqlvalidator/grammar/lexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 24422c9..353350e 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -519,6 +519,8 @@ class WhereClauseParser:
             can_alias=False,
             until_one_of=SelectStatementParser.keywords[2:],
         )
+        if isinstance(expression, SelectStatement):
+            raise ParsingError("Missing parentheses around subquery")
         return WhereClause(expression), next_token
 
 
@@ -546,6 +548,8 @@ class HavingClauseParser:
             can_alias=False,
             until_one_of=SelectStatementParser.keywords[4:],
         )
+        if isinstance(expression, SelectStatement):
+            raise ParsingError("Missing parentheses around subquery")
         return HavingClause(expression), next_token
 
 
-- 
2.43.0


From 6af740d59572f6a62bbe8030f6d508ddbb2e6130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 079/112] fix: --check-format does not announce a rewriting
 that the encoding of the file rules out

---
 sqlvalidator/file_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 509cd4c..6001b8d 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -220,8 +220,8 @@ def analyse_file(
     file_changed = count_changed_sql > 0
     if file_changed:
         starting_text = None
+        encoded_content = new_content.encode(encoding)
         if format_input:
-            encoded_content = new_content.encode(encoding)
             with open(filename, "wb") as f:
                 f.write(encoded_content)
             starting_text = "reformatted"
-- 
2.43.0


From 5049a46d49a3a4c59d7ddb378b55d2414a8f23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:03 +0000
Subject: [PATCH 080/112] fix: a file that is also reached through a symbolic
 link is processed once

---
 sqlvalidator/file_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 6001b8d..8f4a102 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -199,7 +199,7 @@ def analyse_file(
     verbose_validate: bool,
     seen_files: Set[str],
 ) -> InputSQLAnalyseInfo:
-    abs_filename = os.path.abspath(filename)
+    abs_filename = os.path.realpath(filename)
     if abs_filename in seen_files:
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
-- 
2.43.0


From 7d00470292dbac9edb304025b85c9f033f29d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:10 +0000
Subject: [PATCH 081/112] fix: reject what follows ASC, DESC or NULLS
 FIRST/LAST in an ORDER BY item

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 353350e..3e95ccf 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -593,6 +593,8 @@ class OrderByItemParser:
             nulls_position = lower(next(tokens, None))
             if nulls_position not in ("first", "last"):
                 raise ParsingError("Missing FIRST or LAST after NULLS")
+            next_token = next(tokens, None)
+        check_no_remaining_token(tokens, next_token)
 
         return OrderByItem(
             expression,
-- 
2.43.0


From 9be2d171eb5f0af786f6e5d100ad0dda2a20c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:14 +0000
Subject: [PATCH 082/112] fix: reject what follows LIMIT ALL

---
 sqlvalidator/grammar/lexer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 3e95ccf..97d4eea 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -611,6 +611,7 @@ class LimitClauseParser:
         if lower(next_token) == "all":
             limit_all = True
             expression = None
+            check_no_remaining_token(tokens, next(tokens, None))
         else:
             limit_all = False
             expression_tokens, next_token = get_tokens_until_one_of(
-- 
2.43.0


From 6f0d89a0cd38b40182aec90a1542a5861c0d5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:36 +0000
Subject: [PATCH 083/112] fix: keep the literals and quoted names of a CAST
 type as they are

---
 sqlvalidator/grammar/lexer.py     |  3 ++-
 sqlvalidator/grammar/sql.py       |  6 +++---
 sqlvalidator/grammar/tokeniser.py | 15 +++++++++++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 97d4eea..2d8548c 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -60,6 +60,7 @@ from sqlvalidator.grammar.tokeniser import (
     get_tokens_until_not_in,
     get_tokens_until_one_of,
     lower,
+    merge_literals,
 )
 
 
@@ -756,7 +757,7 @@ class ExpressionParser:
                     assert lower(next_token) == "as", next_token
                     type_tokens, next_token = get_tokens_until_one_of(tokens, [")"])
                     assert type_tokens and next_token == ")", next_token
-                    cast_type = Type(*type_tokens)
+                    cast_type = Type(*merge_literals(type_tokens))
                     expression = CastFunctionCall(column, cast_type)
                 elif lower(main_token) == "array_agg":
                     next_token = next(tokens)
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4ce5e68..2ba31c4 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1117,15 +1117,15 @@ class Type(Expression):
         self.arguments = arguments
 
     def __str__(self):
-        type_str = self.value
+        type_str = self.value.upper()
         for argument in self.arguments:
             if argument not in ("(", ")", "<", ">", ">>", ",") and type_str[-1] not in (
                 "(",
                 "<",
             ):
                 type_str += " "
-            type_str += argument
-        return type_str.upper()
+            type_str += argument if argument[0] in String.QUOTES else argument.upper()
+        return type_str
 
     def __eq__(self, other):
         return super().__eq__(other) and self.arguments == other.arguments
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 4f3b44f..0ca35bf 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -119,6 +119,21 @@ def get_tokens_until_not_in(tokens, kept_words, first_token=None):
     return argument_tokens, next_token
 
 
+def merge_literals(tokens):
+    """
+    The same tokens, but with every string literal (or quoted name) as one token
+    """
+    merged_tokens = []
+    quote = None
+    for token in tokens:
+        if quote is None:
+            merged_tokens.append(token)
+        else:
+            merged_tokens[-1] += token
+        quote = get_open_quote(quote, token)
+    return merged_tokens
+
+
 def split_with_sep(s: str, sep: str):
     splitted = split_with_escaping(s, sep)
     for word in splitted[:-1]:
-- 
2.43.0


From 353aa85cd92710f944b2f3265ac647ee1245f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:59 +0000
Subject: [PATCH 084/112] fix: keep the case of the field names of a STRUCT
 type

---
 sqlvalidator/grammar/sql.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 2ba31c4..29c4bcd 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1118,15 +1118,33 @@ class Type(Expression):
 
     def __str__(self):
         type_str = self.value.upper()
-        for argument in self.arguments:
+        for index, argument in enumerate(self.arguments):
             if argument not in ("(", ")", "<", ">", ">>", ",") and type_str[-1] not in (
                 "(",
                 "<",
             ):
                 type_str += " "
-            type_str += argument if argument[0] in String.QUOTES else argument.upper()
+            if argument[0] in String.QUOTES or self._is_field_name(index):
+                type_str += argument
+            else:
+                type_str += argument.upper()
         return type_str
 
+    def _is_field_name(self, index) -> bool:
+        """
+        Is it a name in STRUCT<name type, ...>
+        """
+        words = (self.value, *self.arguments, ">")
+        if words[index] not in ("<", ",") or not (words[index + 2][0].isalpha()):
+            return False
+        opened = []
+        for position, word in enumerate(words[: index + 1]):
+            if word == "<":
+                opened.append(words[position - 1].lower())
+            else:
+                del opened[len(opened) - word.count(">") :]
+        return opened[-1:] == ["struct"]
+
     def __eq__(self, other):
         return super().__eq__(other) and self.arguments == other.arguments
 
-- 
2.43.0


From 78d6164d96ef977be24ccd4cacb3e0e2727af016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:03 +0000
Subject: [PATCH 085/112] fix: reject an index without closing bracket

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 2d8548c..059095a 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -872,6 +872,7 @@ class ExpressionParser:
                 argument_tokens, next_token = get_tokens_until_one_of(
                     tokens, stop_words=["]"]
                 )
+                assert next_token == "]", next_token
                 arguments = ExpressionListParser.parse(iter(argument_tokens))
                 expression = Index(
                     Column(main_token), arguments
@@ -989,6 +990,7 @@ class ExpressionParser:
                 argument_tokens, next_token = get_tokens_until_one_of(
                     tokens, stop_words=["]"]
                 )
+                assert next_token == "]", next_token
                 arguments = ExpressionListParser.parse(iter(argument_tokens))
                 expression = Index(expression, arguments)
                 next_token = next(tokens, None)
-- 
2.43.0


From 3be700b710889d1c852bb864aa1d93f9ce5c6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:07 +0000
Subject: [PATCH 086/112] fix: reject DISTINCT ON without expressions in
 parentheses

---
 sqlvalidator/grammar/lexer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 059095a..911903c 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -123,11 +123,14 @@ class SelectStatementParser:
             select_distinct = True
             next_token = next(tokens)
             if lower(next_token) == "on":
-                next(tokens)  # Consume parenthesis
+                if next(tokens) != "(":
+                    raise ParsingError("Missing parenthesis after DISTINCT ON")
                 distinct_on_tokens = get_tokens_until_closing_parenthesis(tokens)
                 select_distinct_on = ExpressionListParser.parse(
                     iter(distinct_on_tokens)
                 )
+                if not select_distinct_on:
+                    raise ParsingError("Missing expression after DISTINCT ON")
             else:
                 first_expression_token = next_token
         else:
-- 
2.43.0


From 9a7b5bd9a6a694f30089627f1a13b82a9b04c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 087/112] fix: reject PARTITION BY without expressions

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 911903c..f2301ad 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -951,6 +951,8 @@ class ExpressionParser:
                     argument_tokens, ["order", "rows", "range"]
                 )
                 partition_by = ExpressionListParser.parse(iter(expression_tokens))
+                if not partition_by:
+                    raise ParsingError("Missing expression after PARTITION BY")
             else:
                 partition_by = None
 
-- 
2.43.0


From 905ce7fc6d95087039760c55c7f80958197894d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:16 +0000
Subject: [PATCH 088/112] fix: reject a semicolon within parentheses

---
 sqlvalidator/grammar/tokeniser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 0ca35bf..d72a7a3 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -61,6 +61,8 @@ def get_tokens_until_closing_parenthesis(tokens, first_token=None):
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
+        elif next_token == ";":
+            raise ValueError("Unexpected ;")
         next_token = next(tokens, None)
 
     if next_token is None:
-- 
2.43.0


From 6d01c6add5e68648d4e529bf28ebe0220d6540a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:55 +0000
Subject: [PATCH 089/112] fix: reject empty EXCEPT and REPLACE lists

---
 sqlvalidator/grammar/lexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index f2301ad..cb99a8b 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -1077,6 +1077,8 @@ class ExpressionParser:
                 raise ParsingError("expected '('")
             argument_tokens = get_tokens_until_closing_parenthesis(tokens)
             arguments = ExpressionListParser.parse(iter(argument_tokens))
+            if not arguments:
+                raise ParsingError("Missing column after EXCEPT")
             expression = ExceptClause(expression, arguments)
             next_token = next(tokens, None)
 
@@ -1086,6 +1088,8 @@ class ExpressionParser:
                 raise ParsingError("expected '('")
             argument_tokens = get_tokens_until_closing_parenthesis(tokens)
             arguments = ExpressionListParser.parse(iter(argument_tokens))
+            if not arguments:
+                raise ParsingError("Missing expression after REPLACE")
             for arg in arguments:
                 assert (
                     isinstance(arg, Alias) and arg.with_as is True
-- 
2.43.0


From efc68e12626e451232b5557fdb323c1c9ac5329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 090/112] fix: reject GROUP BY ROLLUP without expressions

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index cb99a8b..a1310bb 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -541,6 +541,8 @@ class GroupByParser:
             tokens, [], first_token=next_token
         )
         expressions = ExpressionListParser.parse(iter(expression_tokens))
+        if not expressions:
+            raise ParsingError("Missing expression after GROUP BY")
         return GroupByClause(*expressions, rollup=rollup)
 
 
-- 
2.43.0


From e73d8eed7aa50e3624f1749346481548ba40e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 091/112] fix: keep a quoted CAST type as it is

---
 sqlvalidator/grammar/sql.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 29c4bcd..8144556 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1117,17 +1117,18 @@ class Type(Expression):
         self.arguments = arguments
 
     def __str__(self):
-        type_str = self.value.upper()
-        for index, argument in enumerate(self.arguments):
-            if argument not in ("(", ")", "<", ">", ">>", ",") and type_str[-1] not in (
-                "(",
-                "<",
+        type_str = ""
+        for index, word in enumerate((self.value, *self.arguments)):
+            if (
+                index > 0
+                and word not in ("(", ")", "<", ">", ">>", ",")
+                and type_str[-1] not in ("(", "<")
             ):
                 type_str += " "
-            if argument[0] in String.QUOTES or self._is_field_name(index):
-                type_str += argument
+            if word[0] in String.QUOTES or self._is_field_name(index):
+                type_str += word
             else:
-                type_str += argument.upper()
+                type_str += word.upper()
         return type_str
 
     def _is_field_name(self, index) -> bool:
@@ -1135,10 +1136,10 @@ class Type(Expression):
         Is it a name in STRUCT<name type, ...>
         """
         words = (self.value, *self.arguments, ">")
-        if words[index] not in ("<", ",") or not (words[index + 2][0].isalpha()):
+        if words[index - 1] not in ("<", ",") or not words[index + 1][0].isalpha():
             return False
         opened = []
-        for position, word in enumerate(words[: index + 1]):
+        for position, word in enumerate(words[:index]):
             if word == "<":
                 opened.append(words[position - 1].lower())
             else:
-- 
2.43.0


From 6a0354a0dc3e54e28d66771c6f2ef40af08a4693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:01 +0000
Subject: [PATCH 092/112] fix: reject a subquery without parentheses after
 LIMIT and OFFSET

---
 sqlvalidator/grammar/lexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index a1310bb..fc5b5cc 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -624,6 +624,8 @@ class LimitClauseParser:
                 tokens, [], first_token=next_token
             )
             expression = ExpressionParser.parse_all(iter(expression_tokens))
+            if isinstance(expression, SelectStatement):
+                raise ParsingError("Missing parentheses around subquery")
         return LimitClause(limit_all, expression)
 
 
@@ -631,6 +633,8 @@ class OffsetClauseParser:
     @staticmethod
     def parse(tokens):
         expression = ExpressionParser.parse_all(tokens)
+        if isinstance(expression, SelectStatement):
+            raise ParsingError("Missing parentheses around subquery")
         return OffsetClause(expression)
 
 
-- 
2.43.0


From b8ea79b3690634bd87590d60079f297260871925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 093/112] fix: keep all the values of a row in a condition over
 several lines

---
 sqlvalidator/grammar/sql.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8144556..daf30cf 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -342,7 +342,7 @@ class WhereClause(Expression):
     def transform(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " (\n " + self.value.transform_content().replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -496,7 +496,7 @@ class HavingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " (\n " + self.value.transform_content().replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1345,6 +1345,9 @@ class Parenthesis(Expression):
     def __repr__(self):
         return "<Parenthesis: {}>".format(", ".join(map(repr, self.args)))
 
+    def transform_content(self):
+        return ", ".join(map(transform, self.args))
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
@@ -1839,7 +1842,7 @@ class OnClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " (\n " + self.value.transform_content().replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1853,7 +1856,7 @@ class UsingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " (\n " + self.value.transform_content().replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1933,7 +1936,7 @@ class BooleanCondition(Expression):
             if isinstance(a, BooleanCondition):
                 transformed_a = a.transform(with_newline=True)
             elif isinstance(a, Parenthesis):
-                transformed_a = transform(a.args[0])
+                transformed_a = a.transform_content()
                 if "\n" in transformed_a:
                     transformed_a = "(\n " + transformed_a.replace("\n", "\n ") + "\n)"
                 else:
@@ -2072,7 +2075,9 @@ class Case(Expression):
             transformed_when = transform(when)
             if isinstance(when, Parenthesis) and "\n" in transformed_when:
                 when_then_str += (
-                    " (\n  " + transform(when.args[0]).replace("\n", "\n  ") + "\n )\n "
+                    " (\n  "
+                    + when.transform_content().replace("\n", "\n  ")
+                    + "\n )\n "
                 )
             elif "\n" in transformed_when:
                 when_then_str += "\n  " + transformed_when.replace("\n", "\n  ") + "\n "
-- 
2.43.0


From b2cc019e3d9b4003b24dcfa412f26253d2f0d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:29 +0000
Subject: [PATCH 094/112] fix: FILTER without a condition is a parsing error

---
 sqlvalidator/grammar/lexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index fc5b5cc..59846fe 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -857,7 +857,8 @@ class ExpressionParser:
                     next_next_token = next(tokens)
                     assert next_next_token == "(", next_next_token
                     argument_tokens = get_tokens_until_closing_parenthesis(tokens)
-                    assert lower(argument_tokens[0]) == "where", argument_tokens
+                    if len(argument_tokens) < 2 or lower(argument_tokens[0]) != "where":
+                        raise ParsingError("Missing WHERE condition after FILTER")
                     filter_condition = ExpressionParser.parse_all(
                         iter(argument_tokens[1:]),
                         can_alias=False,
-- 
2.43.0


From c1c0785640863f86a26195b6c754cdd8c65a19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:33 +0000
Subject: [PATCH 095/112] fix: an alias in USING is a parsing error

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 59846fe..b7c4ae9 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -359,6 +359,8 @@ class FromStatementParser:
             elif lower(on_or_using) == "using":
                 expressions = ExpressionParser.parse_all(iter(expression_tokens))
                 using = UsingClause(expressions)
+                if any(isinstance(column, Alias) for column in using.columns):
+                    raise ParsingError("Unexpected alias in USING")
 
             expression = Join(join_type, left_expr, right_expr, on=on, using=using)
 
-- 
2.43.0


From 902ca7d3d83f7c212484eee5f3ecd2a540ecbd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 096/112] fix: the closing parenthesis of CAST before AS is a
 parsing error

---
 sqlvalidator/grammar/lexer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index b7c4ae9..0274bdb 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -757,8 +757,9 @@ class ExpressionParser:
                 and main_token not in SignedExpression.SIGNS
             ):
                 if lower(main_token) == "cast":
+                    argument_tokens = iter(get_tokens_until_closing_parenthesis(tokens))
                     column_tokens, next_token = get_tokens_until_one_of(
-                        tokens, stop_words=["as"]
+                        argument_tokens, stop_words=["as"]
                     )
                     column = ExpressionParser.parse_all(
                         iter(column_tokens),
@@ -766,8 +767,8 @@ class ExpressionParser:
                         until_one_of=until_one_of,
                     )
                     assert lower(next_token) == "as", next_token
-                    type_tokens, next_token = get_tokens_until_one_of(tokens, [")"])
-                    assert type_tokens and next_token == ")", next_token
+                    type_tokens = list(argument_tokens)
+                    assert type_tokens, next_token
                     cast_type = Type(*merge_literals(type_tokens))
                     expression = CastFunctionCall(column, cast_type)
                 elif lower(main_token) == "array_agg":
-- 
2.43.0


From 0e1767b1019d1dab8b61c369d1716714d4fff43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:47 +0000
Subject: [PATCH 097/112] fix: a number after a dot is a parsing error

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 0274bdb..b53d9e2 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -702,6 +702,8 @@ class ExpressionParser:
 
         main_token = first_token or next(tokens)
         next_token = None
+        if is_chained_columns and FLOAT_PATTERN.fullmatch(main_token):
+            raise ParsingError("Unexpected {}".format(main_token))
 
         if main_token in String.QUOTES:
             expression = StringParser.parse(tokens, main_token)
-- 
2.43.0


From 269243ab2734c98b39ce2293a33a60d0a3538cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:19 +0000
Subject: [PATCH 098/112] fix: an operator in a CAST type is a parsing error

---
 sqlvalidator/grammar/lexer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index b53d9e2..8c127ac 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -66,6 +66,8 @@ from sqlvalidator.grammar.tokeniser import (
 
 NOT_NAME_TOKENS = set(KEPT_SPLIT_TOKENS + MERGE_TOKENS) - {"*"}
 
+NOT_TYPE_TOKENS = {"=", "!", "!=", "<=", ">=", "<>", "+", "*", "/", "|", "||", "&", "^"}
+
 
 class ParsingError(Exception):
     pass
@@ -771,7 +773,11 @@ class ExpressionParser:
                     assert lower(next_token) == "as", next_token
                     type_tokens = list(argument_tokens)
                     assert type_tokens, next_token
-                    cast_type = Type(*merge_literals(type_tokens))
+                    type_words = merge_literals(type_tokens)
+                    for word in type_words:
+                        if word in NOT_TYPE_TOKENS:
+                            raise ParsingError("Unexpected {}".format(word))
+                    cast_type = Type(*type_words)
                     expression = CastFunctionCall(column, cast_type)
                 elif lower(main_token) == "array_agg":
                     next_token = next(tokens)
-- 
2.43.0


From ec940a0fef55b5dc663adb70f60ab8f8f6088f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:59 +0000
Subject: [PATCH 099/112] fix: an unknown set operator is a parsing error

---
 sqlvalidator/grammar/lexer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 8c127ac..6478669 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -483,7 +483,12 @@ class WithStatementParser:
 class SetOperatorTypeParser:
     @staticmethod
     def parse(tokens):
-        return " ".join(tokens).upper()
+        operator, *quantifiers = map(lower, tokens)
+        if operator == "all" or quantifiers not in ([], ["all"], ["distinct"]):
+            raise ParsingError(
+                "Unexpected set operator {}".format(" ".join([operator, *quantifiers]))
+            )
+        return " ".join([operator, *quantifiers]).upper()
 
 
 class SetOperationParser:
-- 
2.43.0


From 25f2422c3cbc56754b5daa9abef4afe0b6bdf1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:03 +0000
Subject: [PATCH 100/112] fix: a square bracket left open in a CAST type is a
 parsing error

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6478669..3f1fc88 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -782,6 +782,8 @@ class ExpressionParser:
                     for word in type_words:
                         if word in NOT_TYPE_TOKENS:
                             raise ParsingError("Unexpected {}".format(word))
+                    if type_words.count("[") != type_words.count("]"):
+                        raise ParsingError("Unexpected square bracket")
                     cast_type = Type(*type_words)
                     expression = CastFunctionCall(column, cast_type)
                 elif lower(main_token) == "array_agg":
-- 
2.43.0


From 8c46b060f16432e8386b6994aee7915b4b439fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:48 +0000
Subject: [PATCH 101/112] fix: recognise an operator of two characters after
 another operator character

---
 sqlvalidator/grammar/tokeniser.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index d72a7a3..c657398 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -164,26 +164,15 @@ def split_with_escaping(s: str, sep: str):
 
 
 def merge_stream(s, goals):
-    for element in s:
-        matching_goals = [g for g in goals if g.startswith(element)]
-        if not matching_goals:
-            yield element
-            continue
+    element = next(s, None)
+    while element is not None:
         next_element = next(s, None)
-        if not next_element:
-            yield element
-            continue
-
-        twice_matching_goals = [
-            g for g in matching_goals if (element + next_element) == g
-        ]
-        if len(twice_matching_goals) > 1:
-            raise ValueError("Should not reach here")
-        elif twice_matching_goals:
-            yield twice_matching_goals[0]
+        if next_element is not None and (element + next_element) in goals:
+            yield element + next_element
+            element = next(s, None)
         else:
             yield element
-            yield next_element
+            element = next_element
 
 
 def _split_on_literals(value: str):
-- 
2.43.0


From a1a331a33a064274dfb0e9bf219871b3f7a979dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 102/112] fix: punctuation as the alias of WITH OFFSET is a
 parsing error

---
 sqlvalidator/grammar/lexer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 3f1fc88..0f54498 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -440,6 +440,7 @@ class UnnestParser:
                     offset_alias = next(tokens)
                 else:
                     offset_alias = next_token
+                check_is_name(offset_alias)
                 next_token = next(tokens, None)
 
         return (
-- 
2.43.0


From 5b5e7eaa6b295f593538b85022517c357b7e76f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 103/112] fix: an alias inside of a date part extraction is a
 parsing error

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 0f54498..b449606 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -892,7 +892,7 @@ class ExpressionParser:
                 and lower(next_token) == "from"
             ):
                 rest_expression, next_token = ExpressionParser.parse(
-                    tokens, until_one_of=until_one_of
+                    tokens, until_one_of=until_one_of, can_alias=False
                 )
                 expression = DatePartExtraction(main_token, rest_expression)
             elif lower(main_token) in Type.VALUES and can_be_type:
-- 
2.43.0


From 6ad6dac16dda4100d02052302b26e44a82b64ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:01 +0000
Subject: [PATCH 104/112] fix: an alias in LIMIT or OFFSET is a parsing error

---
 sqlvalidator/grammar/lexer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index b449606..97f6d5d 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -633,7 +633,9 @@ class LimitClauseParser:
             expression_tokens, next_token = get_tokens_until_one_of(
                 tokens, [], first_token=next_token
             )
-            expression = ExpressionParser.parse_all(iter(expression_tokens))
+            expression = ExpressionParser.parse_all(
+                iter(expression_tokens), can_alias=False
+            )
             if isinstance(expression, SelectStatement):
                 raise ParsingError("Missing parentheses around subquery")
         return LimitClause(limit_all, expression)
@@ -642,7 +644,7 @@ class LimitClauseParser:
 class OffsetClauseParser:
     @staticmethod
     def parse(tokens):
-        expression = ExpressionParser.parse_all(tokens)
+        expression = ExpressionParser.parse_all(tokens, can_alias=False)
         if isinstance(expression, SelectStatement):
             raise ParsingError("Missing parentheses around subquery")
         return OffsetClause(expression)
-- 
2.43.0


From 81e5defb4489b9f49b36299777520d9dc53c1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:05 +0000
Subject: [PATCH 105/112] fix: a field of a number is a parsing error

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 97f6d5d..773d288 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -1014,6 +1014,8 @@ class ExpressionParser:
             next_token = next(tokens, None)
 
         while next_token and next_token in (".", "["):
+            if next_token == "." and isinstance(expression, (Integer, Float)):
+                raise ParsingError("Unexpected .")
             if next_token == ".":
                 right_hand, next_token = ExpressionParser.parse(
                     tokens, until_one_of=until_one_of, is_chained_columns=True
-- 
2.43.0


From 88dd151d9374b6be27cb2dccf7c70b866c474754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:23 +0000
Subject: [PATCH 106/112] fix: a number after a sign is not a field (a number
 after a dot is)

---
 sqlvalidator/grammar/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 773d288..a99caf6 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -712,8 +712,6 @@ class ExpressionParser:
 
         main_token = first_token or next(tokens)
         next_token = None
-        if is_chained_columns and FLOAT_PATTERN.fullmatch(main_token):
-            raise ParsingError("Unexpected {}".format(main_token))
 
         if main_token in String.QUOTES:
             expression = StringParser.parse(tokens, main_token)
@@ -1020,6 +1018,8 @@ class ExpressionParser:
                 right_hand, next_token = ExpressionParser.parse(
                     tokens, until_one_of=until_one_of, is_chained_columns=True
                 )
+                if isinstance(right_hand, (Integer, Float)):
+                    raise ParsingError("Unexpected {}".format(transform(right_hand)))
                 expression = ChainedColumns(expression, right_hand)
             else:
                 argument_tokens, next_token = get_tokens_until_one_of(
-- 
2.43.0


From 829ffc93e4d45f94b21e95763dd52ed6e02dcd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:36 +0000
Subject: [PATCH 107/112] fix: accept a condition as the operand of CAST

---
 sqlvalidator/grammar/lexer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index a99caf6..167876b 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -772,10 +772,10 @@ class ExpressionParser:
                         argument_tokens, stop_words=["as"]
                     )
                     column = ExpressionParser.parse_all(
-                        iter(column_tokens),
-                        is_right_hand=True,
-                        until_one_of=until_one_of,
+                        iter(column_tokens), can_alias=False
                     )
+                    if isinstance(column, SelectStatement):
+                        raise ParsingError("Missing parentheses around subquery")
                     assert lower(next_token) == "as", next_token
                     type_tokens = list(argument_tokens)
                     assert type_tokens, next_token
-- 
2.43.0


From 3b7b1f3541980670cb5a75ab98015dfbd62002c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:03 +0000
Subject: [PATCH 108/112] fix: keep the prefix of a string literal apart from a
 name before a string

---
 sqlvalidator/grammar/lexer.py     |  5 +++--
 sqlvalidator/grammar/sql.py       |  3 +--
 sqlvalidator/grammar/tokeniser.py | 29 ++++++++++++++++++++++++++---
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 167876b..ba1c764 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -55,6 +55,7 @@ from sqlvalidator.grammar.tokeniser import (
     FLOAT_PATTERN,
     KEPT_SPLIT_TOKENS,
     MERGE_TOKENS,
+    StringPrefix,
     get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
@@ -926,9 +927,9 @@ class ExpressionParser:
                 )
                 expression = SignedExpression(main_token, signed_expression)
             elif (
-                lower(main_token) in String.PREFIXES
+                isinstance(main_token, StringPrefix)
                 and next_token is not None
-                and lower(next_token) in String.QUOTES
+                and next_token in String.QUOTES
             ):
                 expression = StringParser.parse(
                     tokens, start_quote=next_token, prefix=main_token
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index daf30cf..aa3125b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1125,7 +1125,7 @@ class Type(Expression):
                 and type_str[-1] not in ("(", "<")
             ):
                 type_str += " "
-            if word[0] in String.QUOTES or self._is_field_name(index):
+            if word[-1] in String.QUOTES or self._is_field_name(index):
                 type_str += word
             else:
                 type_str += word.upper()
@@ -1209,7 +1209,6 @@ class DatePartExtraction(Expression):
 
 class String(Expression):
     QUOTES = ("'", '"', "`")
-    PREFIXES = ("r",)
 
     def __init__(self, value, quotes, prefix=None):
         super().__init__(value)
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index c657398..cbbefb0 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -29,9 +29,22 @@ FLOAT_PATTERN = re.compile(r"(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
 UNSPLIT_PATTERN = re.compile(
     r"((?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.])|%\(\w+\)s(?!\w))"
 )
+# words that, immediately before a quote, belong to the literal
+STRING_PREFIXES = {
+    "'": ("r", "b", "rb", "br", "e", "n", "x"),
+    '"': ("r", "b", "rb", "br"),
+    "`": (),
+}
+LAST_WORD_PATTERN = re.compile(r"(?<![\w.@:$%])\w+\Z")
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
 
 
+class StringPrefix(str):
+    """
+    The prefix of a string literal, unlike a name that is followed by a string
+    """
+
+
 def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
@@ -128,7 +141,8 @@ def merge_literals(tokens):
     merged_tokens = []
     quote = None
     for token in tokens:
-        if quote is None:
+        after_prefix = merged_tokens and isinstance(merged_tokens[-1], StringPrefix)
+        if quote is None and not after_prefix:
             merged_tokens.append(token)
         else:
             merged_tokens[-1] += token
@@ -187,8 +201,17 @@ def _split_on_literals(value: str):
             index += 1
             continue
 
-        if start < index:
-            yield from split_tokens(value[start:index])
+        before = value[start:index]
+        match = LAST_WORD_PATTERN.search(before)
+        prefix = match.group() if match else ""
+        if prefix.lower() in STRING_PREFIXES[quote]:
+            before = before[: -len(prefix)]
+        else:
+            prefix = ""
+        if before:
+            yield from split_tokens(before)
+        if prefix:
+            yield StringPrefix(prefix)
         start = index = index + 1
         while index < len(value):
             if value[index] == "\\":
-- 
2.43.0


From 892c515bf2044ac1ed2bd8d963ffc391a13873b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:34 +0000
Subject: [PATCH 109/112] fix: split the operator % from its operands when
 written without spaces

---
 sqlvalidator/grammar/tokeniser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index cbbefb0..15061d9 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -29,6 +29,10 @@ FLOAT_PATTERN = re.compile(r"(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
 UNSPLIT_PATTERN = re.compile(
     r"((?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.])|%\(\w+\)s(?!\w))"
 )
+# the operator, not (a part of) a placeholder like %s or %(name)s, or of a template
+MODULO_PATTERN = re.compile(
+    r"(?<![{%])(%)(?![sdifr]\w*(?![\w(])|[({%}])", re.IGNORECASE
+)
 # words that, immediately before a quote, belong to the literal
 STRING_PREFIXES = {
     "'": ("r", "b", "rb", "br", "e", "n", "x"),
@@ -271,6 +275,15 @@ def split_tokens(value: str):
                 yield from split_tokens(elem)
         return
 
+    splitted = MODULO_PATTERN.split(value)
+    if len(splitted) > 1 and value != "%":
+        for index, elem in enumerate(splitted):
+            if index % 2 == 1:
+                yield elem
+            elif elem:
+                yield from split_tokens(elem)
+        return
+
     for kept_token in KEPT_SPLIT_TOKENS:
         if kept_token in value and value != kept_token:
             yield from _split_on_kept_token(kept_token, value)
-- 
2.43.0


From 651c1452d447fda70e0dee6637c21a601780f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:01 +0000
Subject: [PATCH 110/112] fix: accept the functions LEFT and RIGHT in the
 condition of a join

---
 sqlvalidator/grammar/lexer.py | 11 +++++++++++
 sqlvalidator/grammar/sql.py   |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index ba1c764..ae63a03 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -1,3 +1,4 @@
+import itertools
 from typing import Any, Optional, Tuple
 
 from sqlvalidator.grammar.sql import (
@@ -356,6 +357,16 @@ class FromStatementParser:
                     tokens,
                     Join.VALUES,
                 )
+                while lower(next_token) in Join.FUNCTIONS:
+                    following_token = next(tokens, None)
+                    if following_token != "(":
+                        tokens = itertools.chain([following_token], tokens)
+                        break
+                    more_tokens, after_token = get_tokens_until_one_of(
+                        tokens, Join.VALUES, first_token=following_token
+                    )
+                    expression_tokens += [next_token] + more_tokens
+                    next_token = after_token
             if lower(on_or_using) == "on":
                 expression = ExpressionParser.parse_all(iter(expression_tokens))
                 on = OnClause(expression)
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index aa3125b..3669e0e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1619,6 +1619,8 @@ class Unnest(Expression):
 
 class Join(Expression):
     VALUES = ("join", "inner", "left", "right", "full", "cross", "outer", ",", "each")
+    # which are functions in front of parentheses
+    FUNCTIONS = ("left", "right")
 
     def __init__(self, join_type, left_from, right_from, on, using):
         self.join_type = join_type
-- 
2.43.0


From 787d8ac7c07def2039a808c25d4d97a61fb8b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:05 +0000
Subject: [PATCH 111/112] fix: upper-case every date part of TIMESTAMP_TRUNC
 and no column

---
 sqlvalidator/grammar/lexer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index ae63a03..b28faf3 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -695,7 +695,8 @@ class ExpressionListParser:
                 and quote is None
             ):
                 expression = ExpressionParser.parse_all(
-                    iter(expression_tokens), can_be_type=can_be_type
+                    iter(expression_tokens),
+                    can_be_type=can_be_type and len(expressions) > 0,
                 )
                 expressions.append(expression)
                 expression_tokens = []
@@ -907,7 +908,10 @@ class ExpressionParser:
                     tokens, until_one_of=until_one_of, can_alias=False
                 )
                 expression = DatePartExtraction(main_token, rest_expression)
-            elif lower(main_token) in Type.VALUES and can_be_type:
+            elif (
+                can_be_type
+                and lower(main_token) in Type.VALUES + DatePartExtraction.PARTS
+            ):
                 expression = Type(main_token)
             elif next_token is not None and next_token == "[":
                 argument_tokens, next_token = get_tokens_until_one_of(
-- 
2.43.0


From 6169df3481515110bf6dca7bc042db487ddc47cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:09 +0000
Subject: [PATCH 112/112] fix: keep the case of words like monday and no where
 they are names

---
 sqlvalidator/grammar/lexer.py | 31 ++++++++++++++++++++++++++++---
 sqlvalidator/grammar/sql.py   | 13 +++++++++++++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index b28faf3..ccfb243 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -30,6 +30,7 @@ from sqlvalidator.grammar.sql import (
     Interval,
     Join,
     LimitClause,
+    Name,
     Negation,
     Null,
     OffsetClause,
@@ -88,6 +89,15 @@ def check_is_name(token):
         raise ParsingError("Unexpected {}".format(token))
 
 
+def get_name(expression, token) -> Expression:
+    """
+    The expression of a token in the place of a name
+    """
+    if isinstance(expression, (Boolean, Column)) and lower(token) in Name.WORDS:
+        return Name(token)
+    return expression
+
+
 class SQLStatementParser:
     @staticmethod
     def parse(tokens):
@@ -276,7 +286,10 @@ class FromStatementParser:
                     stop_words=Join.VALUES + CombinedQueries.SET_OPERATORS,
                     first_token=next_token,
                 )
-                expression = Table(ExpressionParser.parse_all(iter(argument_tokens)))
+                table = ExpressionParser.parse_all(iter(argument_tokens))
+                if isinstance(table, Alias):
+                    table.expression = get_name(table.expression, argument_tokens[0])
+                expression = Table(get_name(table, argument_tokens[0]))
 
         if (
             next_token is not None
@@ -1031,9 +1044,16 @@ class ExpressionParser:
             if next_token == "." and isinstance(expression, (Integer, Float)):
                 raise ParsingError("Unexpected .")
             if next_token == ".":
+                if isinstance(expression, (Boolean, Column)):
+                    expression = get_name(expression, main_token)
+                name_token = next(tokens)
                 right_hand, next_token = ExpressionParser.parse(
-                    tokens, until_one_of=until_one_of, is_chained_columns=True
+                    tokens,
+                    until_one_of=until_one_of,
+                    first_token=name_token,
+                    is_chained_columns=True,
                 )
+                right_hand = get_name(right_hand, name_token)
                 if isinstance(right_hand, (Integer, Float)):
                     raise ParsingError("Unexpected {}".format(transform(right_hand)))
                 expression = ChainedColumns(expression, right_hand)
@@ -1152,9 +1172,14 @@ class ExpressionParser:
         ):
             if lower(next_token) == "as":
                 with_as = True
+                alias_token = next(tokens)
                 alias, next_token = ExpressionParser.parse(
-                    tokens, is_right_hand=True, until_one_of=until_one_of
+                    tokens,
+                    is_right_hand=True,
+                    until_one_of=until_one_of,
+                    first_token=alias_token,
                 )
+                alias = get_name(alias, alias_token)
             else:
                 with_as = False
                 alias = next_token
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 3669e0e..4c2fbe8 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1327,6 +1327,19 @@ class Boolean(Expression):
         return bool
 
 
+class Name(Column):
+    """
+    A name that is a keyword in other places
+    """
+
+    WORDS = Boolean.BOOLEAN_VALUES + tuple(
+        keyword for keyword in Column.KEYWORDS if not keyword.startswith("_")
+    )
+
+    def __str__(self):
+        return self.value
+
+
 class Parenthesis(Expression):
     def __init__(self, *args):
         self.args = args
-- 
2.43.0

