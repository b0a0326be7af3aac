From 00a7aec318a1d46f7b0a586529a956c3262c9db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:48 +0000
Subject: [PATCH 01/33] fix: quotes in names can no longer escape the quoted
 identifier

---
 sqlpuzzle/_backends/sql.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 70bca71..eb88de0 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -39,9 +39,14 @@ class SqlBackend:
         """
         from sqlpuzzle._common.utils import force_text
         value = force_text(value)
-        parts = re.split(r'{quote}([^{quote}]+){quote}|\.'.format(quote=cls.reference_quote), value)
-        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
-        return '.'.join(parts)
+        quote = cls.reference_quote
+        parts = re.split(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\.'.format(quote=quote), value)
+        # Items on odd indexes are already quoted (and escaped), others are plain.
+        return '.'.join(
+            part if part == '*' and not index % 2 else
+            '{quote}{part}{quote}'.format(quote=quote, part=part if index % 2 else part.replace(quote, quote * 2))
+            for index, part in enumerate(parts) if part
+        )
 
     @classmethod
     def bytes(cls, value):
-- 
2.43.0


From f78894cb8e87ca8c435bdff6ff5799cab32240b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:02 +0000
Subject: [PATCH 02/33] fix: white space around a quoted reference is not part
 of the reference

---
 sqlpuzzle/_common/sqlvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 9332a8b..c62ceca 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -84,7 +84,7 @@ class SqlValue(Object):
     def _string(self):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
-            return self._reference()
+            return get_backend().reference(self.value.strip())
         return "'{}'".format(_escape_value(force_text(self.value)))
 
     def _bytes(self):
-- 
2.43.0


From 39c4ef801f4b508b2dc90235dfd24225aee11f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:05 +0000
Subject: [PATCH 03/33] fix: strings with backslash or new line are intact in
 SQLite and PostgreSQL

---
 sqlpuzzle/_backends/postgresql.py |  6 ++++++
 sqlpuzzle/_backends/sql.py        | 11 +++++++++++
 sqlpuzzle/_backends/sqlite.py     |  5 +++++
 sqlpuzzle/_common/sqlvalue.py     | 13 +------------
 4 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/sqlpuzzle/_backends/postgresql.py b/sqlpuzzle/_backends/postgresql.py
index 1711ee3..ccafc7c 100644
--- a/sqlpuzzle/_backends/postgresql.py
+++ b/sqlpuzzle/_backends/postgresql.py
@@ -15,6 +15,12 @@ class PostgreSqlBackend(SqlBackend):
     def boolean(cls, value):
         return 'true' if value else 'false'
 
+    @classmethod
+    def string(cls, value):
+        value = super().string(value)
+        # Backslash is escape character only in strings with prefix E.
+        return 'E' + value if '\\' in value else value
+
     @classmethod
     def bytes(cls, value):
         return "E'\\\\x{}'".format(binascii.hexlify(value).decode('ascii'))
diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index eb88de0..f88ce4d 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -48,6 +48,17 @@ class SqlBackend:
             for index, part in enumerate(parts) if part
         )
 
+    @classmethod
+    def string(cls, value):
+        replace_table = (
+            ("\\", "\\\\"),
+            ("'", "''"),
+            ("\n", "\\n"),
+        )
+        for old, new in replace_table:
+            value = value.replace(old, new)
+        return "'{}'".format(value)
+
     @classmethod
     def bytes(cls, value):
         return "x'{}'".format(binascii.hexlify(value).decode('ascii'))
diff --git a/sqlpuzzle/_backends/sqlite.py b/sqlpuzzle/_backends/sqlite.py
index 0b25b1a..14d4332 100644
--- a/sqlpuzzle/_backends/sqlite.py
+++ b/sqlpuzzle/_backends/sqlite.py
@@ -7,3 +7,8 @@ class SqliteBackend(SqlBackend):
     name = 'SQLite'
 
     supports_replace_into = True
+
+    @classmethod
+    def string(cls, value):
+        # SQLite does not know any escape sequence but doubled quote.
+        return "'{}'".format(value.replace("'", "''"))
diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index c62ceca..5f11ad6 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -10,17 +10,6 @@ from .utils import force_text, is_sql_instance
 __all__ = ('SqlValue', 'SqlReference')
 
 
-def _escape_value(value):
-    replace_table = (
-        ("\\", "\\\\"),
-        ("'", "''"),
-        ("\n", "\\n"),
-    )
-    for old, new in replace_table:
-        value = value.replace(old, new)
-    return value
-
-
 class SqlValue(Object):
     """
     Or ``sqlpuzzle.sqlvalue``.
@@ -85,7 +74,7 @@ class SqlValue(Object):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
             return get_backend().reference(self.value.strip())
-        return "'{}'".format(_escape_value(force_text(self.value)))
+        return get_backend().string(force_text(self.value))
 
     def _bytes(self):
         return get_backend().bytes(self.value)
-- 
2.43.0


From 7b56848d19fbea2986fd363a88b11cbbd0361f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 04/33] fix: join does not empty the dictionary passed by the
 caller

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 7637d5a..8354acb 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -123,7 +123,7 @@ class Table(QueryPart):
         if isinstance(arg, (list, tuple)) and len(arg) == 2:
             table = Table(*arg)
         elif isinstance(arg, dict) and len(arg) == 1:
-            table = Table(*arg.popitem())
+            table = Table(*list(arg.items())[0])
         elif isinstance(arg, str):
             table = Table(arg)
         else:
-- 
2.43.0


From 48405b45d03f5a7affa2aa1e150f003c9dd1d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:24 +0000
Subject: [PATCH 05/33] fix: rendering does not change joins of the query

---
 sqlpuzzle/_queryparts/tables.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 8354acb..dff193a 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -78,13 +78,12 @@ class Table(QueryPart):
             table = force_text(SqlReference(self.table_name))
 
         if self._joins:
-            self._minimize_joins()
             table += ' ' + ' '.join(
                 '{} {}{}'.format(
                     JOIN_TYPES[join['type']],
                     join['table'],
                     ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
-                ) for join in self._joins
+                ) for join in self._minimize_joins()
             )
 
         return table
@@ -156,15 +155,15 @@ class Table(QueryPart):
             if append_new:
                 joins_group.append([join])
 
-        self._joins = []
+        minimized_joins = []
         for joins in joins_group:
             if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
-                joins[0]['type'] = INNER_JOIN
-                self._joins.append(joins[0])
+                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
             elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
-                self._joins.append(joins[0])
+                minimized_joins.append(joins[0])
             else:
-                self._joins.extend(joins)
+                minimized_joins.extend(joins)
+        return minimized_joins
 
 
 class Tables(QueryParts):
-- 
2.43.0


From adae2eb1980a1b71616f7f16fd96e8fc0cc537dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:26 +0000
Subject: [PATCH 06/33] fix: value made of generator can be rendered repeatedly

---
 sqlpuzzle/_common/sqlvalue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 5f11ad6..4391ba7 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -48,6 +48,9 @@ class SqlValue(Object):
             Union: self._subselect,
         }
 
+        # Generator gives its items only once, but query can be rendered many times.
+        if isinstance(value, types.GeneratorType):
+            value = list(value)
         self.value = value
 
     def __str__(self):
-- 
2.43.0


From 41ef5df45ba36a0c91bd2c59a6d360fbcfe6d477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:48 +0000
Subject: [PATCH 07/33] fix: named arguments are not lost when dictionary is
 passed too

---
 sqlpuzzle/_common/argsparser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 98ca9c5..fb7c5ea 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -66,11 +66,9 @@ class ParserInput:
         return []
 
     @property
-    def dictionary_or_kwds(self):
+    def dictionary(self):
         if self.is_dictionary:
             return self.args[0]
-        if self.is_kwds:
-            return self.kwds
         return {}
 
     @property
@@ -116,7 +114,8 @@ class Parser:
         if self.input_data.is_dictionary or self.input_data.is_kwds:
             if not self.options.allow_dict:
                 raise InvalidArgumentException('Dictionary or kwds is disabled.')
-            self._parse_dictionary(self.input_data.dictionary_or_kwds)
+            self._parse_dictionary(self.input_data.dictionary)
+            self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
         for item in sorted(dictionary.items()):
-- 
2.43.0


From 504c63568dc526452c8c275ec36fc8cfa7abe375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:51 +0000
Subject: [PATCH 08/33] fix: named arguments are not lost when Q objects are
 passed too

---
 sqlpuzzle/_queryparts/conditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 8a7a494..9a1ae9d 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -109,9 +109,9 @@ class Conditions(BinaryOperationMixin, QueryParts):
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
             for item in args:
                 self.append_unique_part(item)
-        else:
-            for column_name, value in parse_args(options, *args, **kwds):
-                self.append_unique_part(self._condition_class(column_name, value))
+            args = ()
+        for column_name, value in parse_args(options, *args, **kwds):
+            self.append_unique_part(self._condition_class(column_name, value))
 
         return self
 
-- 
2.43.0


From dedd52f5c296987c1c5e1d0ed68dfb8717a33498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:53 +0000
Subject: [PATCH 09/33] fix: tuple with too few items is refused instead of
 filled by None

---
 sqlpuzzle/_common/argsparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index fb7c5ea..cfbc576 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -137,6 +137,8 @@ class Parser:
     def _create_batch(self, values):
         if len(values) > self.options.max_items:
             raise InvalidArgumentException('Too many arguments.')
+        if len(values) < self.options.min_items:
+            raise InvalidArgumentException('Too few arguments.')
         return self._append_nones(tuple(values))
 
     def _append_nones(self, tuple_with_values):
-- 
2.43.0


From 1c7e2d90309214775a47d13c9da4e81f73dabebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:55 +0000
Subject: [PATCH 10/33] fix: column can be named options in named arguments

---
 sqlpuzzle/_common/argsparser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index cfbc576..9e33a1c 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -3,10 +3,10 @@ from sqlpuzzle.exceptions import InvalidArgumentException
 __all__ = ('parse_args',)
 
 
-# pylint: disable=dangerous-default-value,keyword-arg-before-vararg
-def parse_args(options={}, *args, **kwds):
+def parse_args(*args, **kwds):
     """
-    Parser of arguments.
+    Parser of arguments. First argument are options (without name, so any
+    name can be in `kwds`), all other arguments are parsed.
 
     dict options {
         int min_items: Min of required items to fold one tuple. (default: 1)
@@ -34,8 +34,8 @@ def parse_args(options={}, *args, **kwds):
         {key1: val1, key2: val2} => ((key1, val1, None), (key2, val2, None))
         (arg1a, arg1b), arg2a, arg2b => FAIL
     """
-    parser_options = ParserOptions(options)
-    parser_input = ParserInput(args, kwds)
+    parser_options = ParserOptions(args[0] if args else {})
+    parser_input = ParserInput(args[1:], kwds)
 
     parser = Parser(parser_options, parser_input)
     parser.parse()
-- 
2.43.0


From d06e1b87d757b2b621a8ee0a882f79e7022f90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 11/33] fix: dictionary can mix keys of different types

---
 sqlpuzzle/_common/argsparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 9e33a1c..2a6a701 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -118,7 +118,8 @@ class Parser:
             self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
-        for item in sorted(dictionary.items()):
+        # Keys can be of various types which are not comparable to each other.
+        for item in sorted(dictionary.items(), key=lambda item: (str(item[0]), type(item[0]).__name__)):
             self._parse_item(item)
 
     def _parse_list(self, list_):
-- 
2.43.0


From 022eef7090cb8092692f141feaff82924ab65b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:14 +0000
Subject: [PATCH 12/33] fix: has looks for the text itself, not for regular
 expression

---
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 76f2ef8..9d0a493 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -21,7 +21,7 @@ def has(part, value):
     value = force_text(value)
     #  If I look for example for "distinct", I don't want to say "hey, there is
     #+ distinct!", if there is actually "distinctrow".
-    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(value), str(part))
+    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(re.escape(value)), str(part))
     return bool(res)
 
 
-- 
2.43.0


From d08485a6e75331d81d1eac9cf7d89b3219da38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 13/33] fix: has works also for keyword of insert

---
 sqlpuzzle/_queries/insert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queries/insert.py b/sqlpuzzle/_queries/insert.py
index 742bfdf..c98fa3a 100644
--- a/sqlpuzzle/_queries/insert.py
+++ b/sqlpuzzle/_queries/insert.py
@@ -1,12 +1,12 @@
 from sqlpuzzle._backends import get_backend
 from sqlpuzzle._queries.options import Options
-from sqlpuzzle._queryparts import Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
+from sqlpuzzle._queryparts import QueryPart, Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
 from .query import Query
 
 __all__ = ('Insert',)
 
 
-class InsertKeyword:
+class InsertKeyword(QueryPart):
     def __init__(self):
         self._is_replace = False
 
-- 
2.43.0


From b6bf8c47edcad6c8c0459f3ff4ab5ee133cca7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:20 +0000
Subject: [PATCH 14/33] fix: has looks into SQL of FOR UPDATE, not to its
 Python attributes

---
 sqlpuzzle/_queries/selectoptions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queries/selectoptions.py b/sqlpuzzle/_queries/selectoptions.py
index d0f9d99..fa35253 100644
--- a/sqlpuzzle/_queries/selectoptions.py
+++ b/sqlpuzzle/_queries/selectoptions.py
@@ -1,5 +1,6 @@
-from sqlpuzzle._common import Object
+from sqlpuzzle._common import Object, force_text
 from sqlpuzzle._queries.options import Options
+from sqlpuzzle._queryparts.queryparts import has
 
 __all__ = ()
 
@@ -98,7 +99,7 @@ class SelectForUpdate(Object):
         return self._for_update
 
     def has(self, value):
-        return hasattr(self, value)
+        return has(self, force_text(value).upper())
 
     def for_update(self, allow=True):
         self._for_update = bool(allow)
-- 
2.43.0


From b0508022b9a3bfe8d11b13947a29a2c14b81ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 15/33] fix: inserts with different target of ON CONFLICT are
 not equal

---
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 9e19617..7d5cd92 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -10,6 +10,9 @@ class OnConflictDoUpdate(Values):
         super().__init__(*args, **kwds)
         self._on_conflict = ''
 
+    def __eq__(self, other):
+        return type(self) == type(other) and self._on_conflict == other._on_conflict and super().__eq__(other)
+
     @property
     def _keyword_of_parts(self):
         return 'ON CONFLICT ({}) DO UPDATE'.format(self._on_conflict)
-- 
2.43.0


From 43e6eeb218ddd7f70e1f85a7f3eae1a83915a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:24 +0000
Subject: [PATCH 16/33] fix: union is hashable as other queries are

---
 sqlpuzzle/_queries/union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index 4904004..314e8c5 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -45,6 +45,8 @@ class Union(Query):
             self.union_type == other.union_type
         )
 
+    __hash__ = Query.__hash__
+
     def __and__(self, other):
         """
         Returns :py:class:`sqlpuzzle._queries.union.Union` instance, ``UNION ALL``.
-- 
2.43.0


From 49ec5e701b655dae696d5b7880646ab33f438f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:26 +0000
Subject: [PATCH 17/33] fix: order which is not a string is refused as invalid
 argument

---
 sqlpuzzle/_queryparts/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index afac74f..0b7d10e 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, force_text, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -48,7 +48,7 @@ class Order(QueryPart):
     def sort(self, sort):
         if sort is None:
             sort = ASC
-        sort = sort.upper()
+        sort = force_text(sort).upper()
         if sort not in (ASC, DESC):
             raise InvalidArgumentException('Type of order can be only {} or {}.'.format(ASC, DESC))
         self._sort = sort
-- 
2.43.0


From 9f2421c53a62245c5f8256d5bf6872b7cd9dd83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:59 +0000
Subject: [PATCH 18/33] fix: do not treat different parts of query as the same
 one

---
 sqlpuzzle/_common/__init__.py       |  2 +-
 sqlpuzzle/_common/utils.py          | 14 +++++++++++++-
 sqlpuzzle/_queryparts/columns.py    |  6 +++---
 sqlpuzzle/_queryparts/conditions.py |  6 +++---
 sqlpuzzle/_queryparts/order.py      |  6 +++---
 sqlpuzzle/_queryparts/tables.py     | 10 +++++-----
 sqlpuzzle/_queryparts/values.py     |  6 +++---
 sqlpuzzle/relations.py              |  4 ++--
 8 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/sqlpuzzle/_common/__init__.py b/sqlpuzzle/_common/__init__.py
index c23346c..d494264 100644
--- a/sqlpuzzle/_common/__init__.py
+++ b/sqlpuzzle/_common/__init__.py
@@ -2,4 +2,4 @@ from .argsparser import parse_args
 from .customsql import CustomSql
 from .object import Object
 from .sqlvalue import SqlValue, SqlReference
-from .utils import force_text, is_sql_instance, check_type_decorator
+from .utils import force_text, is_same, is_sql_instance, check_type_decorator
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 9a8275c..df78302 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -2,7 +2,7 @@ from functools import wraps
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
-__all__ = ('force_text', 'is_sql_instance', 'check_type_decorator')
+__all__ = ('force_text', 'is_same', 'is_sql_instance', 'check_type_decorator')
 
 
 def force_text(value):
@@ -15,6 +15,18 @@ def is_sql_instance(value):
     return hasattr(value, 'tosql')
 
 
+def is_same(value, other):
+    """
+    Are values same also in SQL? SQL objects are equal to string with the same
+    text and also 1 == True == 1.0, but they are not the same thing in SQL.
+    """
+    if type(value) != type(other):
+        return False
+    if isinstance(value, (list, tuple)):
+        return len(value) == len(other) and all(is_same(v, o) for v, o in zip(value, other))
+    return value == other
+
+
 def check_type_decorator(allowed_types=()):
     def decorator(func):
         @wraps(func)
diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 1def7d5..70d102e 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, is_same, parse_args
 from .queryparts import QueryPart, QueryParts
 
 __all__ = ('Column', 'Columns')
@@ -21,8 +21,8 @@ class Column(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.alias == other.alias
+            is_same(self.column_name, other.column_name) and
+            is_same(self.alias, other.alias)
         )
 
     @property
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 9a1ae9d..99442c5 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -2,7 +2,7 @@ import datetime
 import decimal
 import types
 
-from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, is_same, parse_args
 from sqlpuzzle import relations
 from .functions import Function
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
@@ -52,8 +52,8 @@ class Condition(BinaryOperationMixin, QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value and
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value) and
             self.relation == other.relation
         )
 
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index 0b7d10e..f746959 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, force_text, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, force_text, is_same, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -26,7 +26,7 @@ class Order(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
+            is_same(self.column_name, other.column_name) and
             self.sort == other.sort
         )
 
@@ -72,6 +72,6 @@ class Orders(QueryParts):
 
     def _find_order_by_column_name(self, column_name):
         for order in self._parts:
-            if order.column_name == column_name:
+            if is_same(order.column_name, column_name):
                 return order
         return None
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index dff193a..3acada3 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -1,6 +1,6 @@
 import sqlpuzzle
 from sqlpuzzle._backends import get_backend
-from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, is_same, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
 from .queryparts import QueryPart, QueryParts
 from .conditions import Condition, Conditions
@@ -47,8 +47,8 @@ class OnCondition(Condition):
         return (
             type(self) == type(other)
             and isinstance(self.value, str)
-            and self.value == other.column_name
-            and self.column_name == other.value
+            and is_same(self.value, other.column_name)
+            and is_same(self.column_name, other.value)
             and revert_relation == type(other.relation_instance)
         )
 
@@ -91,8 +91,8 @@ class Table(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.table_name == other.table_name and
-            self.alias == other.alias and
+            is_same(self.table_name, other.table_name) and
+            is_same(self.alias, other.alias) and
             self._joins == other._joins
         )
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index c3bb2e0..69a56cd 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -1,7 +1,7 @@
 import datetime
 import decimal
 
-from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, is_same, parse_args
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -20,8 +20,8 @@ class Value(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value)
         )
 
     @property
diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index 0731a12..f8a3a09 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -14,7 +14,7 @@ import decimal
 import types
 
 from sqlpuzzle._common.object import Object
-from sqlpuzzle._common.utils import force_text, is_sql_instance
+from sqlpuzzle._common.utils import force_text, is_same, is_sql_instance
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
@@ -41,7 +41,7 @@ class _RelationValue(Object):
         """Are relations equivalent?"""
         return (
             self.__class__ == other.__class__ and
-            self._value == other._value
+            is_same(self._value, other._value)
         )
 
     def _check_value_type(self, value):
-- 
2.43.0


From 04d3ce3f1e55e3344d05627e46421c27a912f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:02 +0000
Subject: [PATCH 19/33] fix: unsupported values are refused instead of rendered
 unescaped

---
 sqlpuzzle/_common/sqlvalue.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 4391ba7..b2a7c1f 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -110,10 +110,7 @@ class SqlValue(Object):
         return 'NULL'
 
     def _undefined(self):
-        try:
-            return '<undefined value {}>'.format(self.value)
-        except Exception:  # pylint: disable=broad-except
-            return '<undefined value>'
+        raise InvalidArgumentException('Value cannot be of type {}.'.format(type(self.value)))
 
     def _reference(self):
         return get_backend().reference(self.value)
-- 
2.43.0


From c05ff09e55debf26bdb17e774562b694e74ce2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:05 +0000
Subject: [PATCH 20/33] fix: refuse infinity and NaN which have no SQL literal

---
 sqlpuzzle/_common/sqlvalue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index b2a7c1f..6db7da6 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -86,6 +86,8 @@ class SqlValue(Object):
         return '{:d}'.format(self.value)
 
     def _float(self):
+        if not decimal.Decimal(self.value).is_finite():
+            raise InvalidArgumentException('Number {} cannot be expressed in SQL.'.format(self.value))
         return '{:.5f}'.format(self.value)
 
     def _boolean(self):
-- 
2.43.0


From ceddc292d97768ec4689933a0567f76714421017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:07 +0000
Subject: [PATCH 21/33] fix: empty Q is not a condition

---
 sqlpuzzle/_queryparts/conditions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 99442c5..0890d6f 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -115,6 +115,12 @@ class Conditions(BinaryOperationMixin, QueryParts):
 
         return self
 
+    def append_part(self, query_part):
+        # Empty conditions, for example Q(), do not restrict anything.
+        if isinstance(query_part, Conditions) and not query_part.is_set:
+            return
+        super().append_part(query_part)
+
 
 class ConditionsOfConditions(BinaryOperationMixin, Object):
     def __init__(self, left, right, type_):
-- 
2.43.0


From 978374588e15d6217ae4a56402164d6a543aeaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 22/33] fix: empty separator of GROUP_CONCAT is not ignored

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aeb6591..a2f5858 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -131,7 +131,7 @@ class GroupConcat(Concat):
         return ''
 
     def _str_separator(self):
-        if self._separator:
+        if self._separator is not None:
             return ' SEPARATOR %s' % SqlValue(self._separator)
         return ''
 
-- 
2.43.0


From ae982be87019a72e08c224cdb4b0bfb758bdeb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:12 +0000
Subject: [PATCH 23/33] fix: refuse relation where value is expected

---
 sqlpuzzle/relations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index f8a3a09..702006c 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -35,7 +35,7 @@ class _RelationValue(Object):
         )
 
     def tosql(self):
-        return self.__str__()
+        raise InvalidArgumentException('Relation can be used only as value of condition.')
 
     def __eq__(self, other):
         """Are relations equivalent?"""
-- 
2.43.0


From 076934cd0b90dab2d2854ba49bceef16b33fb3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:31 +0000
Subject: [PATCH 24/33] fix: union on the right side of different union keeps
 its grouping

---
 sqlpuzzle/_backends/sql.py    |  4 ++++
 sqlpuzzle/_backends/sqlite.py |  5 +++++
 sqlpuzzle/_queries/union.py   | 16 +++++++++++++++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index f88ce4d..defecc3 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -59,6 +59,10 @@ class SqlBackend:
             value = value.replace(old, new)
         return "'{}'".format(value)
 
+    @classmethod
+    def nested_union(cls, value):
+        return '({})'.format(value)
+
     @classmethod
     def bytes(cls, value):
         return "x'{}'".format(binascii.hexlify(value).decode('ascii'))
diff --git a/sqlpuzzle/_backends/sqlite.py b/sqlpuzzle/_backends/sqlite.py
index 14d4332..55d7aea 100644
--- a/sqlpuzzle/_backends/sqlite.py
+++ b/sqlpuzzle/_backends/sqlite.py
@@ -12,3 +12,8 @@ class SqliteBackend(SqlBackend):
     def string(cls, value):
         # SQLite does not know any escape sequence but doubled quote.
         return "'{}'".format(value.replace("'", "''"))
+
+    @classmethod
+    def nested_union(cls, value):
+        # SQLite does not support brackets in UNION.
+        return 'SELECT * FROM ({})'.format(value)
diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index 314e8c5..928e92b 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -1,4 +1,5 @@
 from sqlpuzzle.exceptions import InvalidArgumentException
+from sqlpuzzle._backends import get_backend
 from sqlpuzzle._common import check_type_decorator
 from .query import Query
 
@@ -34,9 +35,22 @@ class Union(Query):
         return '{} {} {}'.format(
             self.query1,
             self.union_type,
-            self.query2,
+            self._get_query2_as_string(),
         )
 
+    def _get_query2_as_string(self):
+        # Unions are evaluated from left to right, so different union on the right side has to be enclosed.
+        if isinstance(self.query2, Union) and self.query2._get_union_types() != {self.union_type}:
+            return get_backend().nested_union(self.query2)
+        return self.query2
+
+    def _get_union_types(self):
+        union_types = {self.union_type}
+        for query in (self.query1, self.query2):
+            if isinstance(query, Union):
+                union_types |= query._get_union_types()
+        return union_types
+
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-- 
2.43.0


From dabe881952aa86bd7039f29b28dfd62f1203c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:33 +0000
Subject: [PATCH 25/33] fix: SQL object as limit or offset is refused as
 invalid argument

---
 sqlpuzzle/_queryparts/limit.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_queryparts/limit.py b/sqlpuzzle/_queryparts/limit.py
index 04e43d9..3ca0ac2 100644
--- a/sqlpuzzle/_queryparts/limit.py
+++ b/sqlpuzzle/_queryparts/limit.py
@@ -1,9 +1,16 @@
-from sqlpuzzle._common import check_type_decorator
+from sqlpuzzle._common import check_type_decorator, is_sql_instance
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart
 
 __all__ = ('Limit',)
 
 
+def _to_int(value):
+    if is_sql_instance(value):
+        raise InvalidArgumentException('Only number can be used for limit and offset.')
+    return int(value)
+
+
 class Limit(QueryPart):
     def __init__(self, limit=None, offset=None):
         super().__init__()
@@ -37,12 +44,12 @@ class Limit(QueryPart):
             self._limit = None
             self._offset = None
         else:
-            self._limit = int(limit)
+            self._limit = _to_int(limit)
             if offset is not None:
                 self.offset(offset)
         return self
 
     @check_type_decorator((type(None), int))
     def offset(self, offset):
-        self._offset = int(offset) if offset else None
+        self._offset = _to_int(offset) if offset else None
         return self
-- 
2.43.0


From dda6c6ccda82e91b2884f44388e301246dd0d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:15 +0000
Subject: [PATCH 26/33] fix: CONCAT and GROUP_CONCAT keep repeated arguments

---
 sqlpuzzle/_queryparts/functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index a2f5858..cff2277 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -93,12 +93,18 @@ class Sum(FunctionWithDistinct):
     _function_name = 'SUM'
 
 
+class ConcatColumns(Columns):
+    def __contains__(self, column):
+        # Repeated column is not redundant here, each has to be concatenated.
+        return False
+
+
 class Concat(Function):
     _function_name = 'CONCAT'
 
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
-        self._columns = Columns().columns(*expr)
+        self._columns = ConcatColumns().columns(*expr)
         if not self._columns.is_set:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
-- 
2.43.0


From ff2411b11945ddbb23d7859c56fa646d043d6ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:17 +0000
Subject: [PATCH 27/33] fix: CONCAT and GROUP_CONCAT without columns are
 refused

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index cff2277..0bf85f0 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -105,7 +105,7 @@ class Concat(Function):
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
         self._columns = ConcatColumns().columns(*expr)
-        if not self._columns.is_set:
+        if not self._columns.count_of_parts:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
     def __str__(self):
-- 
2.43.0


From c1700ea8731088e714712abbcc25501cbff8f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:01 +0000
Subject: [PATCH 28/33] fix: equality of join conditions is symmetric

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 3acada3..ba27cc5 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -46,7 +46,7 @@ class OnCondition(Condition):
         revert_relation = self._revert_relation_map.get(type(self.relation_instance), None)
         return (
             type(self) == type(other)
-            and isinstance(self.value, str)
+            and isinstance(self.value, str) and isinstance(other.value, str)
             and is_same(self.value, other.column_name)
             and is_same(self.column_name, other.value)
             and revert_relation == type(other.relation_instance)
-- 
2.43.0


From 58fb40ec2ac4fc16b14a5a1a850b8ed6343496c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:27 +0000
Subject: [PATCH 29/33] fix: EXISTS without subquery is refused instead of
 rendered unescaped

---
 sqlpuzzle/_queryparts/where.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/where.py b/sqlpuzzle/_queryparts/where.py
index 9b231b2..74c9dbc 100644
--- a/sqlpuzzle/_queryparts/where.py
+++ b/sqlpuzzle/_queryparts/where.py
@@ -1,4 +1,5 @@
-from sqlpuzzle._common import Object
+from sqlpuzzle._common import Object, is_sql_instance
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .conditions import Conditions
 
 __all__ = ('Where', 'Exists')
@@ -11,6 +12,8 @@ class Where(Conditions):
 class Exists(Object):
     def __init__(self, subquery):
         super().__init__()
+        if not is_sql_instance(subquery):
+            raise InvalidArgumentException('EXISTS cannot be used with type {}.'.format(type(subquery)))
         self._subquery = subquery
 
     def __str__(self):
-- 
2.43.0


From 1fd2c3a2638e7f0920f924cf115d92ed39ca6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:47 +0000
Subject: [PATCH 30/33] fix: CONVERT without type or with type which is not a
 string is refused

---
 sqlpuzzle/_queryparts/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index 0bf85f0..a61acaf 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import Object, SqlReference, SqlValue, force_text
+from sqlpuzzle._common import Object, SqlReference, SqlValue, force_text, is_sql_instance
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .columns import Columns
 from .orderby import OrderBy
@@ -176,6 +176,8 @@ class Convert(Function):
             self.to(type_)
 
     def __str__(self):
+        if self._type is None:
+            raise InvalidArgumentException('CONVERT needs type. Use method `to`.')
         return '{}({}, {})'.format(
             self._function_name,
             self._get_expr_as_string(),
@@ -194,5 +196,7 @@ class Convert(Function):
             >>> sqlpuzzle.convert('col', 'unsigned')
             <Convert: CONVERT("col", UNSIGNED)>
         """
-        self._type = str(type_).upper()
+        if not isinstance(type_, str) and not is_sql_instance(type_):
+            raise InvalidArgumentException('Type of CONVERT cannot be of type {}.'.format(type(type_)))
+        self._type = force_text(type_).upper()
         return self
-- 
2.43.0


From 8e4b006523366c97ffa41c49f5df0f15a31d7d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:49 +0000
Subject: [PATCH 31/33] fix: SQL object instead of row is refused by insert

---
 sqlpuzzle/_queryparts/values.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index 69a56cd..2b342da 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -2,6 +2,7 @@ import datetime
 import decimal
 
 from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, is_same, parse_args
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -93,5 +94,7 @@ class MultipleValues(QueryParts):
 
     def add(self, *args, **kwds):
         values = Values().set(*args, **kwds)
+        if not all(isinstance(value, Value) for value in values._parts):
+            raise InvalidArgumentException('Row to insert has to be composed of columns and their values.')
         self.append_part(values)
         return self
-- 
2.43.0


From 79f1e4bb5f0e12c736c90832df2580fdcc057121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:56 +0000
Subject: [PATCH 32/33] fix: equality of queries was not symmetric for custom
 SQL against Q with the same text

---
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 9d0a493..a23bbf9 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -59,7 +59,7 @@ class QueryParts(Object):
     def __eq__(self, other):
         if not isinstance(other, QueryParts) or len(self._parts) != len(other._parts):
             return False
-        return all(sp == op for sp, op in zip(self._parts, other._parts))
+        return all(type(sp) == type(op) and sp == op for sp, op in zip(self._parts, other._parts))
 
     @property
     def count_of_parts(self):
-- 
2.43.0


From ec1eccb489a3868a3453a2d40676ecd8c65d0d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:58 +0000
Subject: [PATCH 33/33] fix: signaling NaN next to another number raised
 decimal.InvalidOperation instead of InvalidArgumentException

---
 sqlpuzzle/_common/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index df78302..0ea9a91 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -1,3 +1,4 @@
+import decimal
 from functools import wraps
 
 from sqlpuzzle.exceptions import InvalidArgumentException
@@ -24,6 +25,8 @@ def is_same(value, other):
         return False
     if isinstance(value, (list, tuple)):
         return len(value) == len(other) and all(is_same(v, o) for v, o in zip(value, other))
+    if isinstance(value, decimal.Decimal) and (value.is_snan() or other.is_snan()):
+        return False  # Signaling NaN can not be compared.
     return value == other
 
 
-- 
2.43.0

