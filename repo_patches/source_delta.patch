From f793488dc128d4d3e31b0a918cc5e79f40f43029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 01/49] fix: date columns no longer crash the schema checks

Date._check_for_schema_errors_and_warnings used an attribute and a name
that do not exist, so check/plan/apply raised AttributeError for any
schema with a DATE, DATETIME, TIMESTAMP, TIME or YEAR column.
---
 mygrations/core/definitions/columns/date.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index 720ee2f..1b44776 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -52,10 +52,10 @@ class Date(Column):
         if self.collate is not None:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a collate")
 
-        if self.auto_increment and self.column_type in no_auto_increment:
+        if self.auto_increment:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
 
-        if self.values:
+        if self.enum_values:
             self._schema_errors.append(
                 "Column '%s' of type %s is not allowed to have a list of values for its length" %
                 (self.name, self.column_type)
-- 
2.43.0


From b4f1742f56175961c1d05f82b0ecb2d471a185aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 02/49] fix: ENUM and SET columns keep their list of values

The parser stores the values in _enum_values but the column was built
from an attribute that does not exist, so every ENUM/SET column was
rendered as ENUM(['a', 'b']) and refused by its own schema check (which
also raised on a default and on an undefined name).
---
 mygrations/core/definitions/columns/enum.py          | 4 ++--
 mygrations/core/definitions/columns/string.py        | 2 ++
 mygrations/formats/mysql/file_reader/parsers/type.py | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/definitions/columns/enum.py b/mygrations/core/definitions/columns/enum.py
index abc049f..59d8043 100644
--- a/mygrations/core/definitions/columns/enum.py
+++ b/mygrations/core/definitions/columns/enum.py
@@ -46,12 +46,12 @@ class Enum(String):
         if not self.enum_values or type(self.enum_values) != list:
             self._schema_errors.append(f"column '{self.name}' of type '{self.column_type}' must have a list of values")
 
-        if self.default and self.default not in self.enum_values:
+        if self.default and self.enum_values and self.default not in self.enum_values:
             self._schema_errors.append(
                 f"Default value for '{self.column_type}' column '{self.name}' is not in the list of allowed values"
             )
 
-        if self.auto_increment and self.column_type in no_auto_increment:
+        if self.auto_increment:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
 
         if self.unsigned:
diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index 0ff74d1..f1f1318 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -42,6 +42,8 @@ class String(Column):
         "VARCHAR",
         "BINARY",
         "VARBINARY",
+        "ENUM",
+        "SET",
     ]
 
     _allowed_default_list = [
diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index c66554b..c028ba1 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -110,7 +110,7 @@ class Type:
             character_set=getattr(self, "_character_set", None),
             collate=getattr(self, "_collate", None),
             auto_increment=getattr(self, "_auto_increment", None),
-            enum_values=getattr(self, "enum_values", None),
+            enum_values=getattr(self, "_enum_values", None),
             parsing_errors=getattr(self, "_parsing_errors", None),
             parsing_warnings=getattr(self, "_parsing_warnings", None),
         )
-- 
2.43.0


From 9b23a390de12f5dab975a8c01b8f966046dd180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 03/49] fix: a BIT column without a default no longer crashes
 the schema check

---
 mygrations/core/definitions/columns/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index a59ddfa..01612ef 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -86,7 +86,7 @@ class Numeric(Column):
                 self._schema_errors.append(
                     f"Column '{self.name}' of type '{self.column_type}' must have an integer value as a default"
                 )
-            if self.column_type == "BIT" and int(self.default) != 0 and int(self.default) != 1:
+            if self.column_type == "BIT" and self.default is not None and int(self.default) not in (0, 1):
                 self._schema_errors.append(f"Column '{self.name}' of type 'BIT' must have a default of 1 or 0")
 
         if self.length:
-- 
2.43.0


From 5a962a3e2838b7bdc587b13c16f64233f728a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 04/49] fix: parse one statement at a time, and leave quoted
 strings alone

Parsers saw the rest of the file instead of their own statement, after
whitespace had been collapsed everywhere: a -- or # comment after a
statement swallowed all following statements (so their tables looked
undeclared and were dropped), and whitespace, '--' and 'word(1)' inside
of quoted row values and defaults were altered.  Escaped and doubled
quotes in row values were not recognised at all.  A file ending in
whitespace after its last statement raised an IndexError.
---
 mygrations/core/parse/parser.py               |  5 +-
 mygrations/core/parse/quoting.py              | 48 +++++++++++++++++++
 mygrations/core/parse/rule_delimited.py       | 15 ++++++
 .../mysql/file_reader/create_parser.py        |  8 ++--
 .../formats/mysql/file_reader/reader.py       |  9 +++-
 5 files changed, 78 insertions(+), 7 deletions(-)
 create mode 100644 mygrations/core/parse/quoting.py

diff --git a/mygrations/core/parse/parser.py b/mygrations/core/parse/parser.py
index 8ebab47..01a168f 100644
--- a/mygrations/core/parse/parser.py
+++ b/mygrations/core/parse/parser.py
@@ -1,4 +1,4 @@
-import re
+from .quoting import sub_outside_quotes
 from .rule_children import RuleChildren
 from .rule_delimited import RuleDelimited
 from .rule_literal import RuleLiteral
@@ -67,7 +67,8 @@ class Parser:
 
         # first thing first, some initial string cleaning.  Clean spaces
         # from start and end and replace any multi-spaces with a single space.
-        string = re.sub("\s+", " ", string).strip()
+        # The contents of quoted strings must stay as they are.
+        string = sub_outside_quotes(r"\s+", lambda match: " ", string).strip()
         number_rules = len(self.rules)
         self._values = {}
 
diff --git a/mygrations/core/parse/quoting.py b/mygrations/core/parse/quoting.py
new file mode 100644
index 0000000..c34cf4a
--- /dev/null
+++ b/mygrations/core/parse/quoting.py
@@ -0,0 +1,48 @@
+import re
+
+# a complete quoted string, including its escaped and doubled quotes
+QUOTED = r"""'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|`[^`]*`"""
+
+_ESCAPES = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "%": "\\%", "_": "\\_"}
+
+_STATEMENT_TOKEN = re.compile(
+    QUOTED + r"|(?P<comment>--[^\n]*|\#[^\n]*|/\*.*?\*/)|(?P<end>;)|[^'\"`;#/-]+|.", re.DOTALL
+)
+
+
+def sub_outside_quotes(pattern, replacement, string):
+    """Like re.sub, but leaves the contents of quoted strings alone"""
+    return re.sub(
+        f"({QUOTED})|{pattern}",
+        lambda match: match.group(1) if match.group(1) is not None else replacement(match),
+        string,
+        flags=re.DOTALL,
+    )
+
+
+def split_statement(sql):
+    """Splits the first statement off of a string of SQL, removing the comments inside of it
+
+    :returns: A tuple with the statement (with its semicolon) and the rest of the SQL
+    """
+    statement = []
+    for match in _STATEMENT_TOKEN.finditer(sql):
+        statement.append(" " if match.group("comment") else match.group(0))
+        if match.group("end"):
+            return ("".join(statement), sql[match.end() :])
+    return ("".join(statement), "")
+
+
+def unescape(string, quote="'"):
+    """Returns the value of a quoted SQL string, given the text between its quotes"""
+    return re.sub(
+        r"\\(.)|%s" % (quote * 2),
+        lambda match: quote if match.group(1) is None else _ESCAPES.get(match.group(1), match.group(1)),
+        string,
+        flags=re.DOTALL,
+    )
+
+
+def escape(value):
+    """Returns the text to put between single quotes to represent a value in SQL"""
+    return str(value).replace("\\", "\\\\").replace("'", "\\'")
diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 71888d0..888f2d1 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -82,8 +82,23 @@ class RuleDelimited(RuleBase):
         vals = []
         current = ''
         in_quote = False
+        escaped = False
         for (index, char) in enumerate(string):
 
+            # the character after a backslash, or the second of two quotes, inside
+            # of a quoted string is just part of the string
+            if escaped:
+                current += char
+                escaped = False
+                continue
+            if in_quote and (
+                (char == '\\' and self.quote != '`') or
+                (char == self.quote and string[index + 1:index + 2] == self.quote)
+            ):
+                current += char
+                escaped = True
+                continue
+
             # if we hit a quote then we need to start/finish a word
             if self.quote and char == self.quote:
 
diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 47d578c..d36edc4 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -1,7 +1,7 @@
-import re
 from collections import OrderedDict
 
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.quoting import sub_outside_quotes
 from mygrations.formats.mysql.definitions.constraint import Constraint
 from mygrations.formats.mysql.definitions.index import Index
 from mygrations.formats.mysql.definitions.table import Table
@@ -70,13 +70,15 @@ class CreateParser(Table, Parser):
         # parser.py:68 does re.sub('\s+', ' ', string) which turns newlines into
         # spaces, so '-- comment\ncolumn' becomes '-- comment column' and the
         # comment eats the next line. Stripping here prevents that.
-        string = re.sub(r"--[^\n]*", "", string)
+        string = sub_outside_quotes(r"--[^\n]*", lambda match: "", string)
         # Strip index prefix-lengths like full_path(255) → full_path.
         # The delimited parser splits column lists on ')' which conflicts with
         # the inner ')' of prefix-lengths. We match word(digits) preceded by
         # '(' or ',' (index column-list context) which avoids type lengths like
         # INT(11) or VARCHAR(255) that are preceded by the type keyword.
-        string = re.sub(r"(\(|\,)(\s*`?\w+`?)\(\d+\)", r"\1\2", string)
+        string = sub_outside_quotes(
+            r"(?P<column>(\(|\,)\s*(`\w+`|\w+))\(\d+\)", lambda match: match.group("column"), string
+        )
         return super().parse(string)
 
     def process(self):
diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 92d8291..a69c87e 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -2,6 +2,7 @@ import io, os
 from .comment_parser import CommentParser
 from .create_parser import CreateParser
 from .insert_parser import InsertParser
+from mygrations.core.parse.quoting import split_statement
 class Reader:
     def __init__(self):
 
@@ -163,6 +164,8 @@ class Reader:
 
             # never hurts
             data = data.strip()
+            if not data:
+                break
 
             # now we are looking for one of three things:
             # comment, create, insert
@@ -172,12 +175,14 @@ class Reader:
 
             elif data[:6].lower() == 'create':
                 parser = CreateParser()
-                data = parser.parse(data)
+                (statement, data) = split_statement(data)
+                data = parser.parse(statement) + data
                 self._tables[parser.name] = parser
 
             elif data[:6].lower() == 'insert':
                 parser = InsertParser()
-                data = parser.parse(data)
+                (statement, data) = split_statement(data)
+                data = parser.parse(statement) + data
                 if not parser.table in self._rows:
                     self._rows[parser.table] = []
 
-- 
2.43.0


From 6c8e6e1e88378f36767783ddc5f4925903b10ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 05/49] fix: column defaults and enum values may contain any
 character

A DEFAULT with a space, comma or parenthesis between its quotes was cut
off at that character (so the table could not be parsed), and escaped
quotes and backslashes in defaults and enum values were neither removed
when reading nor added when writing SQL.
---
 mygrations/core/definitions/columns/column.py      |  5 +++--
 .../formats/mysql/file_reader/parsers/type.py      | 14 ++++++++++----
 .../mysql/file_reader/parsers/type_character.py    |  7 ++++---
 .../mysql/file_reader/parsers/type_datetime.py     |  4 ++--
 .../mysql/file_reader/parsers/type_decimal.py      |  7 ++++---
 .../formats/mysql/file_reader/parsers/type_enum.py |  9 +++++----
 .../mysql/file_reader/parsers/type_numeric.py      |  7 ++++---
 .../mysql/file_reader/parsers/type_plain.py        |  3 ++-
 .../formats/mysql/file_reader/parsers/type_text.py |  7 ++++---
 9 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 95a6c4e..c03e192 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 from typing import Union, List
 from ..base import Base
+from mygrations.core.parse.quoting import escape
 
 
 class Column(Base):
@@ -211,7 +212,7 @@ class Column(Base):
 
         type_string = self.column_type
         if self.enum_values:
-            type_string += "('%s')" % ("', '".join(self.enum_values))
+            type_string += "('%s')" % ("', '".join(escape(value) for value in self.enum_values))
         elif self.length is not None and self.length != "":
             type_string += "(%s)" % self.length
         parts.append(type_string)
@@ -228,7 +229,7 @@ class Column(Base):
             elif type(self.default) != str or self.default.isnumeric():
                 parts.append("DEFAULT %s" % self.default)
             else:
-                parts.append("DEFAULT '%s'" % self.default)
+                parts.append("DEFAULT '%s'" % escape(self.default))
 
         if self.auto_increment:
             parts.append("AUTO_INCREMENT")
diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index c028ba1..7d78368 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -1,17 +1,23 @@
 from mygrations.formats.mysql.definitions import columns
 from mygrations.core.definitions.columns.column import Column
+from mygrations.core.parse.quoting import unescape
 
 
 class Type:
     @staticmethod
-    def _unquote(value):
-        """Strip surrounding single quotes from *value* if present.
+    def _is_quoted(value):
+        """Return True if *value* is surrounded by (single or double) quotes."""
+        return bool(value) and len(value) >= 2 and value[0] in "'\"" and value[-1] == value[0]
+
+    @classmethod
+    def _unquote(cls, value):
+        """Strip surrounding quotes from *value* if present, and the escaping inside of them.
 
         Returns the stripped string, or the original value unchanged if
         it is not quoted.
         """
-        if value and len(value) >= 2 and value[0] == "'" and value[-1] == "'":
-            return value.strip("'")
+        if cls._is_quoted(value):
+            return unescape(value[1:-1], value[0])
         return value
 
     def _init_errors(self):
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index e60381f..857ff13 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -1,4 +1,5 @@
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.quoting import QUOTED
 from .type import Type
 
 
@@ -37,7 +38,7 @@ class TypeCharacter(Parser, Type):
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": f"DEFAULT ({QUOTED}|[^\(\s\),]+)", "optional": True, "name": "default"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
@@ -57,8 +58,8 @@ class TypeCharacter(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
index c70ece5..ab2dca5 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
@@ -54,8 +54,8 @@ class TypeDateTime(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index 0a095a1..e0aa6d7 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -1,4 +1,5 @@
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.quoting import QUOTED
 from .type import Type
 
 
@@ -19,7 +20,7 @@ class TypeDecimal(Parser, Type):
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": f"DEFAULT ({QUOTED}|[^\(\s\),]+)", "optional": True, "name": "default"},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
@@ -36,8 +37,8 @@ class TypeDecimal(Parser, Type):
         self._default = self._values.get("default")
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
             self._parsing_warnings.append(
                 "Column '%s' has a numeric type but its default value is a string" % self._name
             )
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index ec86893..cac9ae5 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -1,4 +1,5 @@
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.quoting import QUOTED, unescape
 from .type import Type
 
 
@@ -16,7 +17,7 @@ class TypeEnum(Parser, Type):
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": f"DEFAULT ({QUOTED}|[^\(\s\),]+)", "optional": True, "name": "default"},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
@@ -27,7 +28,7 @@ class TypeEnum(Parser, Type):
         self._init_errors()
         self._name = self._extract_name()
         self._column_type = self._values["type"]
-        self._enum_values = self._values["enum_values"]
+        self._enum_values = [unescape(value) for value in self._values["enum_values"]]
         self._length = self._enum_values
         self._null = self._extract_null()
         self._has_default = "default" in self._values
@@ -36,8 +37,8 @@ class TypeEnum(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index e4afca8..0ff3ecb 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -1,4 +1,5 @@
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.quoting import QUOTED
 from .type import Type
 
 
@@ -29,7 +30,7 @@ class TypeNumeric(Parser, Type):
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "name": "default", "optional": True},
+        {"type": "regexp", "value": f"DEFAULT ({QUOTED}|[^\(\s\),]+)", "name": "default", "optional": True},
         {"type": "literal", "value": "AUTO_INCREMENT", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
@@ -48,8 +49,8 @@ class TypeNumeric(Parser, Type):
         self.is_char = self._column_type in ["char", "varchar"]
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index b40e14a..5769814 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -1,4 +1,5 @@
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.quoting import QUOTED
 from .type import Type
 
 
@@ -21,7 +22,7 @@ class TypePlain(Parser, Type):
         {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {
             "type": "regexp",
-            "value": "DEFAULT ([^\(\s\),]+)",
+            "value": f"DEFAULT ({QUOTED}|[^\(\s\),]+)",
             "optional": True,
             "name": "default",
         },
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index 1f44ae4..1371df8 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -1,4 +1,5 @@
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.quoting import QUOTED
 from .type import Type
 
 
@@ -29,7 +30,7 @@ class TypeText(Parser, Type):
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": f"DEFAULT ({QUOTED}|[^\(\s\),]+)", "optional": True, "name": "default"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
@@ -49,8 +50,8 @@ class TypeText(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # slightly more work on the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
-- 
2.43.0


From 16f8fe096fef088f4f40142ddb82fe85bf5e23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 06/49] fix: string defaults are always quoted,
 CURRENT_TIMESTAMP never

A VARCHAR DEFAULT '007' was written as DEFAULT 007 (stored as 7), and
DEFAULT CURRENT_TIMESTAMP as a string, which the server refuses.
---
 mygrations/core/definitions/columns/column.py | 13 +++++++------
 mygrations/core/definitions/columns/date.py   |  5 +++++
 mygrations/core/definitions/columns/string.py |  5 +++++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index c03e192..6de8a52 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -224,18 +224,19 @@ class Column(Base):
             parts.append("NOT NULL")
 
         if self.default is not None:
-            if self.default == "":
-                parts.append("DEFAULT ''")
-            elif type(self.default) != str or self.default.isnumeric():
-                parts.append("DEFAULT %s" % self.default)
-            else:
-                parts.append("DEFAULT '%s'" % escape(self.default))
+            parts.append("DEFAULT %s" % self._default_as_sql())
 
         if self.auto_increment:
             parts.append("AUTO_INCREMENT")
 
         return " ".join(parts)
 
+    def _default_as_sql(self) -> str:
+        """Returns the default value the way it has to be written in SQL"""
+        if type(self.default) != str or self.default.isnumeric():
+            return "%s" % self.default
+        return "'%s'" % escape(self.default)
+
     def is_really_the_same_as(self, column: Column) -> bool:
         """Takes care of a pesky false-positive when checking columns
 
diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index 1b44776..f44752d 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -41,6 +41,11 @@ class Date(Column):
             parsing_warnings=parsing_warnings,
         )
 
+    def _default_as_sql(self) -> str:
+        if str(self.default).upper() == 'CURRENT_TIMESTAMP':
+            return 'CURRENT_TIMESTAMP'
+        return super()._default_as_sql()
+
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index f1f1318..ac98f8d 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -1,5 +1,6 @@
 from .column import Column
 from typing import List, Union
+from mygrations.core.parse.quoting import escape
 
 
 class String(Column):
@@ -95,6 +96,10 @@ class String(Column):
 
         return as_string
 
+    def _default_as_sql(self) -> str:
+        # a string of digits is still a string: '007' and 007 are not the same default
+        return "'%s'" % escape(self.default)
+
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
-- 
2.43.0


From b501dc81864633117631709cf08dcfcc0926c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 07/49] fix: declared row values reach the database unchanged

UPDATE statements did not escape quotes (and ids were not escaped at
all), doubled quotes were not understood when reading, an unquoted null
in lower case became the string 'null' and a quoted 'NULL' became NULL.
---
 mygrations/core/parse/rule_delimited.py                | 10 +++++++---
 .../formats/mysql/file_reader/parsers/insert_values.py |  3 ++-
 .../formats/mysql/mygrations/operations/row_delete.py  |  3 ++-
 .../formats/mysql/mygrations/operations/row_insert.py  |  3 ++-
 .../formats/mysql/mygrations/operations/row_update.py  |  5 +++--
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 888f2d1..41e2cc1 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -72,6 +72,10 @@ class RuleDelimited(RuleBase):
                 (self.rule, self.parser_class)
             )
 
+    def _bare_word(self, word):
+        # among quoted strings an unquoted NULL is not a string
+        return None if self.quote == "'" and word.upper() == 'NULL' else word
+
     def parse(self, string):
 
         end = self.next_rule['value'].lower()
@@ -123,14 +127,14 @@ class RuleDelimited(RuleBase):
 
                 if string[index:index + end_len].lower() == end:
                     if has_word:
-                        vals.append(current)
+                        vals.append(self._bare_word(current))
                     break
 
                 # if we hit a separator then we need to start a new word
                 if char == self.separator:
 
                     if has_word:
-                        vals.append(current)
+                        vals.append(self._bare_word(current))
                         has_word = False
                     current = ''
 
@@ -139,7 +143,7 @@ class RuleDelimited(RuleBase):
                 # skip white space outside of quotes (also end a word)
                 if char == ' ':
                     if has_word:
-                        vals.append(current)
+                        vals.append(self._bare_word(current))
                         has_word = False
 
                     current = ''
diff --git a/mygrations/formats/mysql/file_reader/parsers/insert_values.py b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
index 4aed6f1..f588f5e 100644
--- a/mygrations/formats/mysql/file_reader/parsers/insert_values.py
+++ b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
@@ -1,3 +1,4 @@
+import re
 from mygrations.core.parse.parser import Parser
 
 
@@ -15,6 +16,6 @@ class InsertValues(Parser):
     def process(self):
 
         self.values = [
-            str(val).replace("\\\\", "\\").replace("\\'", "'") if val != "NULL" else None
+            re.sub(r"\\([\\'])|''", lambda match: match.group(1) or "'", val) if val is not None else None
             for val in self._values["values"]
         ]
diff --git a/mygrations/formats/mysql/mygrations/operations/row_delete.py b/mygrations/formats/mysql/mygrations/operations/row_delete.py
index 3bff403..01a0860 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_delete.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_delete.py
@@ -1,3 +1,4 @@
+from mygrations.core.parse.quoting import escape
 class RowDelete:
     """ Generates an SQL command to delete a record """
     def __init__(self, table_name, row_id):
@@ -18,4 +19,4 @@ class RowDelete:
         return self._table_name
 
     def __str__(self):
-        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, self.row_id)
+        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, escape(self.row_id))
diff --git a/mygrations/formats/mysql/mygrations/operations/row_insert.py b/mygrations/formats/mysql/mygrations/operations/row_insert.py
index 2ef1bf0..b529919 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_insert.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_insert.py
@@ -1,3 +1,4 @@
+from mygrations.core.parse.quoting import escape
 class RowInsert:
     """ Generates an SQL command to insert a record """
     def __init__(self, table_name, data):
@@ -20,7 +21,7 @@ class RowInsert:
     def __str__(self):
         cols = ', '.join(['`%s`' % val for val in self.data.keys()])
         vals = ', '.join([
-            "'%s'" % str(val).replace('\\', '\\\\').replace("'", "\\'") if val is not None else 'NULL'
+            "'%s'" % escape(val) if val is not None else 'NULL'
             for val in self.data.values()
         ])
         return 'INSERT INTO `%s` (%s) VALUES (%s);' % (self._table_name, cols, vals)
diff --git a/mygrations/formats/mysql/mygrations/operations/row_update.py b/mygrations/formats/mysql/mygrations/operations/row_update.py
index 116a2a5..7384814 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_update.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_update.py
@@ -1,3 +1,4 @@
+from mygrations.core.parse.quoting import escape
 class RowUpdate:
     """ Generates an SQL command to update a record """
     def __init__(self, table_name, data):
@@ -22,7 +23,7 @@ class RowUpdate:
 
     def __str__(self):
         updates = ', '.join([
-            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\')) if val is not None else ('`%s`=NULL' % key)
+            "`%s`='%s'" % (key, escape(val)) if val is not None else ('`%s`=NULL' % key)
             for (key, val) in self.data.items() if key != 'id'
         ])
-        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, self.data['id'])
+        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, escape(self.data['id']))
-- 
2.43.0


From 91459b4a734efdafd65d3703b5483bb39d46e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 08/49] fix: an unreadable directory of SQL files is an error

glob.glob() swallows the error and returns nothing, so the declared
schema looked empty and apply dropped every table.  The order in which
the files are read no longer depends on the file system either.
---
 mygrations/formats/mysql/file_reader/database.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index 58fa0ed..a5518c7 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -1,5 +1,4 @@
 import os
-import glob
 from .reader import Reader
 from mygrations.formats.mysql.definitions.database import Database as BaseDatabase
 class Database(BaseDatabase):
@@ -64,8 +63,10 @@ class Database(BaseDatabase):
         if directory[-1] != os.sep:
             directory += os.sep
 
-        for filename in glob.glob('%s*.sql' % directory):
-            self._read(filename)
+        # not glob: it hides errors, and a directory that cannot be read is not an empty directory
+        for filename in sorted(os.listdir(directory)):
+            if filename.endswith('.sql') and not filename.startswith('.'):
+                self._read(directory + filename)
 
     def _read(self, contents):
         """ Processes a file or string of SQL.
-- 
2.43.0


From a45ba280db099500969859eade08f5931fa7cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 09/49] fix: declarations that cannot be read or understood are
 errors

Files that could not be decoded, statements that could not be parsed to
their end, second definitions of a table and rows of unknown tables were
printed at most (or raised KeyError), the rest of the declared schema was
used as if it was complete.
---
 mygrations/formats/mysql/file_reader/database.py | 11 ++++++-----
 mygrations/formats/mysql/file_reader/reader.py   | 11 +++++++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index a5518c7..469fbfb 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -79,17 +79,17 @@ class Database(BaseDatabase):
         :type contents: string
         """
 
+        reader = Reader()
         try:
-            reader = Reader()
             reader.parse(contents)
 
-        except ValueError as e:
-            print("Error in file %s: %s" % (contents, e))
+        except (ValueError, SyntaxError) as e:
+            self._global_errors.append("Error in file %s: %s" % (contents, e))
 
         # keep rows and tables separate while we are reading
         for (table_name, table) in reader.tables.items():
             if table.name in self._tables:
-                self.errors.append('Found two definitions for table %s' % table.name)
+                self._global_errors.append('Found two definitions for table %s' % table.name)
             self._tables[table.name] = table
 
         self._global_errors.extend(reader._global_errors)
@@ -104,8 +104,9 @@ class Database(BaseDatabase):
     def _combine_tables_and_rows(self):
         for (table_name, rows_list) in self._rows.items():
             if table_name not in self._tables:
-                self._global_errors.extend(
+                self._global_errors.append(
                     f"Found rows for table {table_name}, but this table does not exist in the database"
                 )
+                continue
             for rows in rows_list:
                 self._tables[table_name].add_rows(rows)
diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index a69c87e..66f8bab 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -177,12 +177,23 @@ class Reader:
                 parser = CreateParser()
                 (statement, data) = split_statement(data)
                 data = parser.parse(statement) + data
+                if not parser.matched:
+                    self._global_errors.append(
+                        "Could not understand CREATE TABLE command: %s%s" % (statement, self._filename_notice())
+                    )
+                if parser.name in self._tables:
+                    self._global_errors.append('Found two definitions for table %s' % parser.name)
                 self._tables[parser.name] = parser
 
             elif data[:6].lower() == 'insert':
                 parser = InsertParser()
                 (statement, data) = split_statement(data)
                 data = parser.parse(statement) + data
+                if not parser.matched:
+                    self._global_errors.append(
+                        "Could not understand INSERT command: %s%s" % (statement, self._filename_notice())
+                    )
+                    continue
                 if not parser.table in self._rows:
                     self._rows[parser.table] = []
 
-- 
2.43.0


From 7813bc1ca683d623fb28d9b1035ca9189965f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 10/49] fix: errors recorded on a table or in an INSERT stop
 the migration

Duplicate columns, indexes, constraints and row ids, missing ids and
missing semicolons were recorded but never looked at: the damaged
declaration (for instance a file cut off after some of its rows) was
applied.  Rows without column names were checked against the wrong table.
---
 mygrations/core/definitions/database.py        | 6 +++++-
 mygrations/core/definitions/table.py           | 2 +-
 mygrations/formats/mysql/file_reader/reader.py | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 32aee1b..56e254b 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -33,7 +33,10 @@ class Database:
         :returns: A list of errors
         :rtype: list
         """
-        global_errors = self._global_errors if self._global_errors is not None else []
+        global_errors = [*self._global_errors] if self._global_errors is not None else []
+        for table in self.tables.values():
+            if hasattr(table, 'global_errors'):
+                global_errors.extend(table.global_errors)
         schema_errors = self.find_schema_errors()
         parsing_errors = self.find_parsing_errors()
         return [*global_errors, *parsing_errors, *schema_errors]
@@ -107,6 +110,7 @@ class Database:
                                 f"Insert error: insert command attempts to set column '{column_name}' for table '{table_name}' but the column does not exist in the table."
                             )
                 else:
+                    table = self.tables[table_name]
                     for row_values in row.raw_rows:
                         if len(row_values) != len(table.columns):
                             errors.append(
diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 40708e3..92d186c 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -325,7 +325,7 @@ class Table:
                 continue
 
             # we need to know the id of this record
-            row_id = str(values[id_index])
+            row_id = str(values[id_index]) if values[id_index] is not None else ""
             if not row_id:
                 self._global_errors.append(
                     "Row is missing a value for the id column for table %s and row %s" % (self._name, values)
diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 66f8bab..e13c04d 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -194,6 +194,10 @@ class Reader:
                         "Could not understand INSERT command: %s%s" % (statement, self._filename_notice())
                     )
                     continue
+                if not parser.has_semicolon:
+                    self._global_errors.append(
+                        "Missing ending semicolon for insert into table %s%s" % (parser.table, self._filename_notice())
+                    )
                 if not parser.table in self._rows:
                     self._rows[parser.table] = []
 
-- 
2.43.0


From 1d80ea918e52764b51cf36c594bb7aef47ea2c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 11/49] fix: a live table that cannot be understood stops the
 migration

The error was printed at most and the table left out of the picture (or
known under an empty name), so the plan re-created or dropped things on
top of it.
---
 mygrations/formats/mysql/db_reader/database.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mygrations/formats/mysql/db_reader/database.py b/mygrations/formats/mysql/db_reader/database.py
index 47a9a23..2ffa120 100644
--- a/mygrations/formats/mysql/db_reader/database.py
+++ b/mygrations/formats/mysql/db_reader/database.py
@@ -27,12 +27,11 @@ class Database(DatabaseDefinition):
         :type conn: mygrations.drivers.mysqldb.mysqldb
         """
         for (table, create_table) in conn.tables().items():
-            try:
-                reader = Reader()
-                reader.parse(create_table)
-
-            except ValueError as e:
-                print("Error in table %s: %s" % (create_table, e))
+            # without this table the picture of the database is wrong, and so is any plan made from it
+            reader = Reader()
+            reader.parse(create_table)
+            if reader.global_errors:
+                raise ValueError("Error in table %s: %s" % (create_table, ", ".join(reader.global_errors)))
 
             for (table_name, table) in reader.tables.items():
                 if table.name in self._tables:
-- 
2.43.0


From 82673e03bf565d23335069a524d52aef49d25063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 12/49] fix: plan and apply report failure when the declared
 schema has errors

Both returned success (exit status 0), and apply even printed 'No changes
required'.
---
 mygrations/core/commands/apply.py | 2 ++
 mygrations/core/commands/plan.py  | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/commands/apply.py b/mygrations/core/commands/apply.py
index 1f97bce..5ac655b 100644
--- a/mygrations/core/commands/apply.py
+++ b/mygrations/core/commands/apply.py
@@ -9,6 +9,8 @@ class Apply(Plan):
     def execute(self, print_results):
 
         commands = self.build_commands()
+        if self.found_errors:
+            return ([], False)
         to_apply = ['%s' % command for command in commands]
         connection = self.get_driver()
         connection.execute(to_apply)
diff --git a/mygrations/core/commands/plan.py b/mygrations/core/commands/plan.py
index f7cd71c..73a248d 100644
--- a/mygrations/core/commands/plan.py
+++ b/mygrations/core/commands/plan.py
@@ -12,13 +12,14 @@ def execute(options, print_results=True):
     return obj.execute(print_results=print_results)
 class Plan(Base):
     needs_cursor = True
+    found_errors = False
 
     def execute(self, print_results=True):
 
         commands = ['%s' % command for command in self.build_commands()]
         if print_results:
             print("\n".join(commands))
-        return (commands, True)
+        return (commands, not self.found_errors)
 
     def build_commands(self):
 
@@ -33,6 +34,7 @@ class Plan(Base):
                 print(error, file=sys.stderr)
 
         if quit_early:
+            self.found_errors = True
             return []
 
         # use the credentials to load up a database connection
-- 
2.43.0


From 2660d455c9189433c582a8e6d5b723869712dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 13/49] fix: a failed apply leaves the connection of its caller
 in order

Foreign key checks stayed off and half of the row changes stayed pending
in an open transaction on the connection supplied by the caller.  With
autocommit on (also a connection supplied by the caller) an interrupted
apply kept the row changes made so far.
---
 mygrations/core/commands/apply.py     |  3 ++-
 mygrations/drivers/pymysql/pymysql.py | 36 ++++++++++++++++++++++++---
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/mygrations/core/commands/apply.py b/mygrations/core/commands/apply.py
index 5ac655b..ca32bb0 100644
--- a/mygrations/core/commands/apply.py
+++ b/mygrations/core/commands/apply.py
@@ -1,4 +1,5 @@
 from .plan import Plan
+from mygrations.formats.mysql.mygrations.operations.enable_checks import EnableChecks
 def execute(options, print_results=True):
 
     obj = Apply(options)
@@ -13,7 +14,7 @@ class Apply(Plan):
             return ([], False)
         to_apply = ['%s' % command for command in commands]
         connection = self.get_driver()
-        connection.execute(to_apply)
+        connection.execute(to_apply, cleanup=str(EnableChecks()))
         if print_results:
             if to_apply:
                 print('Applied:')
diff --git a/mygrations/drivers/pymysql/pymysql.py b/mygrations/drivers/pymysql/pymysql.py
index 14f4626..a8e431c 100644
--- a/mygrations/drivers/pymysql/pymysql.py
+++ b/mygrations/drivers/pymysql/pymysql.py
@@ -75,14 +75,42 @@ class PyMySQL(object):
 
         return rows
 
-    def execute(self, queries):
+    def execute(self, queries, cleanup=None):
+        """Executes the queries and commits them together
+
+        If that fails then everything that is not committed yet is rolled back and the cleanup
+        query is executed, because the connection may belong to someone who goes on using it.
+        For the same reason autocommit is only switched off while the queries are executed.
+
+        :param queries: The query (or a list of queries) to execute
+        :param cleanup: A query to execute after a failure
+        """
         if isinstance(queries, str):
             queries = [queries]
 
+        autocommit = self.connection.get_autocommit()
         cursor = self.connection.cursor()
 
-        for query in queries:
-            cursor.execute(query)
+        try:
+            if autocommit:
+                self.connection.autocommit(False)
+
+            for query in queries:
+                cursor.execute(query)
+
+            self.connection.commit()
+            if autocommit:
+                self.connection.autocommit(True)
+        except BaseException:
+            try:
+                self.connection.rollback()
+                if cleanup:
+                    cursor.execute(cleanup)
+                if autocommit:
+                    self.connection.autocommit(True)
+            except pymysql_driver.MySQLError:
+                # then the connection is gone, and so is everything that was not committed
+                pass
+            raise
 
-        self.connection.commit()
         cursor.close()
-- 
2.43.0


From 68a3f4977dc1312f124eedb529bf572a534019dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 14/49] fix: foreign keys are not dropped and added again
 without a reason

The check for changed column types compared display widths (which 8.0
does not report) and character sets known on one side only, so every
apply cycled the foreign keys of such columns, forever.
---
 mygrations/core/definitions/columns/column.py    |  5 +++++
 mygrations/core/definitions/columns/numeric.py   |  6 +++++-
 mygrations/formats/mysql/mygrations/mygration.py | 11 ++++++-----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 6de8a52..f714f7f 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -77,6 +77,11 @@ class Column(Base):
 
         return self._length
 
+    @property
+    def length_is_only_display_width(self) -> bool:
+        """Returns True if the length has no influence on the values the column can have"""
+        return False
+
     @property
     def null(self) -> bool:
         """Returns True/False to denote if the column is allowed to be null"""
diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 01612ef..3c909af 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -122,8 +122,12 @@ class Numeric(Column):
         "BIGINT",
     ]
 
+    @property
+    def length_is_only_display_width(self) -> bool:
+        return self.column_type in self._integer_types_with_deprecated_width
+
     def is_really_the_same_as(self, column: Column) -> bool:
-        if self.column_type in self._integer_types_with_deprecated_width:
+        if self.length_is_only_display_width:
             for attr in ["name", "null", "column_type"]:
                 if getattr(self, attr) != getattr(column, attr):
                     return False
diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 7cc1bfe..d53128c 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -350,12 +350,13 @@ class Mygration:
         """
         if source_col.column_type != target_col.column_type:
             return True
-        if source_col.length != target_col.length:
+        if source_col.length != target_col.length and not source_col.length_is_only_display_width:
             return True
         if bool(source_col.unsigned) != bool(target_col.unsigned):
             return True
-        if source_col.character_set != target_col.character_set:
-            return True
-        if source_col.collate != target_col.collate:
-            return True
+        # only one of them having a value is the false positive that Table.to() ignores as well
+        for attr in ["character_set", "collate"]:
+            (source_value, target_value) = (getattr(source_col, attr), getattr(target_col, attr))
+            if source_value and target_value and source_value != target_value:
+                return True
         return False
-- 
2.43.0


From ea658c08b8ab47a0fa82926d24e357124512c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 15/49] fix: a change of AUTO_INCREMENT alone is a change

is_really_the_same_as() ignored it, so it was never applied.
---
 mygrations/core/definitions/columns/numeric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 3c909af..15aee5f 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -133,6 +133,8 @@ class Numeric(Column):
                     return False
             if bool(self.unsigned) != bool(column.unsigned):
                 return False
+            if bool(self.auto_increment) != bool(column.auto_increment):
+                return False
             if self._default_none_mismatch(column):
                 return False
             if not self._is_really_the_same_default(column):
-- 
2.43.0


From 62221234c22b2a2bd4f6a856a951019bf3599531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 16/49] fix: the primary key does not go by the name of its
 first column

A change of the primary key that kept its first column was written as
DROP KEY `id`, and a key with the name of that column could not be
read.
---
 mygrations/core/definitions/index.py                         | 3 +++
 mygrations/formats/mysql/mygrations/operations/change_key.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/mygrations/core/definitions/index.py b/mygrations/core/definitions/index.py
index e647b73..5e8a0e0 100644
--- a/mygrations/core/definitions/index.py
+++ b/mygrations/core/definitions/index.py
@@ -46,6 +46,9 @@ class Index:
         # if we don't have a name then assume it's name matches the name of our first column
         if self._name:
             return self._name
+        # there is only one primary key, and its name is reserved
+        if self.is_primary():
+            return "PRIMARY"
         if len(self._columns) > 0:
             return self._columns[0] if type(self._columns[0]) == str else self._columns[0].name
         return ""
diff --git a/mygrations/formats/mysql/mygrations/operations/change_key.py b/mygrations/formats/mysql/mygrations/operations/change_key.py
index c4647a7..52b3256 100644
--- a/mygrations/formats/mysql/mygrations/operations/change_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/change_key.py
@@ -12,4 +12,6 @@ class ChangeKey:
         table.change_key(self.key)
 
     def __str__(self):
+        if self.key.index_type == 'PRIMARY':
+            return 'DROP PRIMARY KEY, ADD %s' % str(self.key)
         return 'DROP KEY `%s`, ADD %s' % (self.key.name, str(self.key))
-- 
2.43.0


From 7ed7a9025885c122c18078a4bce21201ffd56d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 17/49] fix: foreign keys are dropped before and added after
 the changes they depend on

A new table could refer to a column or index that a later statement of
the same plan adds or changes, a foreign key could be dropped after the
ALTER TABLE of another table that it blocks, and the name of a foreign
key could be used for a new one before the old one (on a table that is
changed or removed) was dropped.
---
 .../formats/mysql/mygrations/mygration.py     | 72 +++++++++++++++++--
 1 file changed, 68 insertions(+), 4 deletions(-)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index d53128c..2d121d7 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -137,19 +137,21 @@ class Mygration:
         db_from_tables = self.db_from.tables if self.db_from else {}
         (tables_to_add, tables_to_remove, tables_to_update) = self._differences(db_from_tables, self.db_to.tables)
 
-        for table_name in tables_to_add:
-            operations.append(self.db_to.tables[table_name].create())
-
         fk_drop_ops, fk_add_ops, cycled_fks = self._find_fk_ops_for_column_type_changes(tables_to_update)
 
         operations.extend(fk_drop_ops)
+        operations.extend(self._find_fk_ops_for_removed_tables(tables_to_remove, tables_to_update, cycled_fks))
 
         # Use split_operations=True to separate FK additions from column/key changes.
         # This ensures ALL column type changes across ALL tables complete before any
         # new FK constraints are added — preventing MySQL error 3780 when a child table
         # (e.g. company_domains) is processed before its parent (e.g. businesses)
         # alphabetically and tries to ADD FK before the parent column type is updated.
+        #
+        # Foreign keys that go away do so before anything else changes: they may be in the way
+        # of changes to other tables, or their name may be used again somewhere else.
         deferred_fk_ops = []
+        alter_ops = []
         for table_name in tables_to_update:
             target_table = self.db_to.tables[table_name]
             source_table = self.db_from.tables[table_name]
@@ -160,12 +162,24 @@ class Mygration:
                 if filtered:
                     operations.append(filtered)
             if "kitchen_sink" in split_ops:
-                operations.append(split_ops["kitchen_sink"])
+                alter_ops.append(split_ops["kitchen_sink"])
             if "fks" in split_ops:
                 filtered = self._strip_cycled_fk_ops(split_ops["fks"], cycled_fks)
                 if filtered:
                     deferred_fk_ops.append(filtered)
 
+        # new tables come first, except for those whose foreign keys need the changes to the other tables
+        waiting_tables = []
+        for table_name in tables_to_add:
+            if self._has_to_wait_for_updates(self.db_to.tables[table_name], tables_to_update):
+                waiting_tables.append(table_name)
+            else:
+                operations.append(self.db_to.tables[table_name].create())
+
+        operations.extend(alter_ops)
+        for table_name in waiting_tables:
+            operations.append(self.db_to.tables[table_name].create())
+
         operations.extend(deferred_fk_ops)
         operations.extend(fk_add_ops)
 
@@ -177,6 +191,56 @@ class Mygration:
 
         return operations
 
+    def _has_to_wait_for_updates(self, table, tables_to_update):
+        """Checks if a new table has a foreign key that the referenced table does not support before it is updated
+
+        :param table: The table to be added
+        :param tables_to_update: List of table names being updated
+        :rtype: bool
+        """
+        for constraint in table.constraints.values():
+            if constraint.foreign_table_name not in tables_to_update:
+                continue
+            source_table = self.db_from.tables[constraint.foreign_table_name]
+            target_table = self.db_to.tables[constraint.foreign_table_name]
+            column_name = constraint.foreign_column_name
+            if not source_table.column_is_indexed(column_name):
+                return True
+            if self._column_type_differs(source_table.columns[column_name], target_table.columns[column_name]):
+                return True
+        return False
+
+    def _find_fk_ops_for_removed_tables(self, tables_to_remove, tables_to_update, cycled_fks):
+        """Finds FK constraints of tables to be removed which have to go earlier than their table
+
+        That is the case if another table is about to use their name, or if the column they
+        reference is removed or loses its index.
+
+        :param tables_to_remove: List of table names being removed
+        :param tables_to_update: List of table names being updated
+        :param cycled_fks: Set of (table_name, constraint_name) tuples which are dropped already
+        :returns: A list of operations
+        :rtype: list
+        """
+        target_names = set()
+        for table in self.db_to.tables.values():
+            target_names.update(table.constraints.keys())
+
+        operations = []
+        for table_name in tables_to_remove:
+            alter = AlterTable(table_name)
+            for constraint in self.db_from.tables[table_name].constraints.values():
+                if (table_name, constraint.name) in cycled_fks:
+                    continue
+                loses_reference = constraint.foreign_table_name in tables_to_update and not self.db_to.tables[
+                    constraint.foreign_table_name
+                ].column_is_indexed(constraint.foreign_column_name)
+                if loses_reference or constraint.name in target_names:
+                    alter.add_operation(RemoveConstraint(constraint))
+            if alter:
+                operations.append(alter)
+        return operations
+
     def _find_fk_ops_for_column_type_changes(self, tables_to_update):
         """Finds FK constraints that must be temporarily dropped due to column type changes.
 
-- 
2.43.0


From 319aacb52c4e54d728941a63e4fe788c6c902d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 18/49] fix: declared rows are complete after one apply

The declared values of columns added by the same apply were only written
by the next one, and a new row could be inserted before the row whose
unique value it takes over was deleted.
---
 mygrations/formats/mysql/definitions/table.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index a542fbc..a4f33a0 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -188,16 +188,14 @@ class Table(BaseTable):
         (inserted_ids, deleted_ids, updated_ids) = self._differences(from_table.rows if from_table else {}, self.rows)
 
         operations = []
-        for row_id in inserted_ids:
-            operations.append(RowInsert(self.name, self.rows[row_id]))
-
         for row_id in deleted_ids:
             operations.append(RowDelete(self.name, row_id))
 
         for row_id in updated_ids:
             # try to be smart and not update if we don't have to
+            # a column that does not exist yet cannot have its declared value
             (inserted_cols, deleted_cols, updated_cols) = self._differences(self.rows[row_id], from_table.rows[row_id])
-            differences = False
+            differences = True if deleted_cols else False
             for col in updated_cols:
                 if not self._loose_equal(self.rows[row_id][col], from_table.rows[row_id][col]):
                     differences = True
@@ -206,4 +204,8 @@ class Table(BaseTable):
             if differences:
                 operations.append(RowUpdate(self.name, self.rows[row_id]))
 
+        # last, because a new row may use the (unique) value of a row that has been deleted or changed
+        for row_id in inserted_ids:
+            operations.append(RowInsert(self.name, self.rows[row_id]))
+
         return operations
-- 
2.43.0


From 255b1e72cb65fc87628471642ccc88cb3acc3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 19/49] fix: declared row values are compared by value

DECIMAL, FLOAT, TIME, DATETIME and binary values that the database writes
differently than the declaration (1.50 and 1.5) were updated by every
apply, and NULL was taken for the string 'None'.
---
 mygrations/core/definitions/table.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 92d186c..e45b250 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -1,4 +1,7 @@
 from __future__ import annotations
+import re
+from datetime import datetime, timedelta
+from decimal import Decimal
 from typing import Any, Dict, List, Set, Union
 from collections import OrderedDict
 from .rows import Rows
@@ -570,8 +573,30 @@ class Table:
         if type(val1) == type(val2):
             return val1 == val2
 
+        if val1 is None or val2 is None:
+            return False
+
         # otherwise see if we can cheat and just convert to strings
-        return str(val1) == str(val2)
+        if str(val1) == str(val2):
+            return True
+
+        # the same value can be written in different ways, so compare it in the type it has in the database
+        (value, text) = (val2, val1) if isinstance(val1, str) else (val1, val2)
+        text = str(text)
+        try:
+            if isinstance(value, (int, float, Decimal)):
+                return Decimal(str(value)) == Decimal(text)
+            if isinstance(value, bytes):
+                return value == text.encode()
+            if isinstance(value, datetime):
+                return value == datetime.fromisoformat(text)
+            if isinstance(value, timedelta):
+                (sign, hours, minutes, seconds) = re.match(r"(-?)(\d+):(\d+):(\d+(?:\.\d+)?)$", text).groups()
+                span = timedelta(hours=int(hours), minutes=int(minutes), seconds=float(seconds))
+                return value == (-span if sign else span)
+        except (ValueError, ArithmeticError, AttributeError):
+            pass
+        return False
 
     def to(self, comparison_table, split_operations=False):
         """Compares two tables to eachother and returns a list of operations which can bring the structure of the second in line with the first
-- 
2.43.0


From 023aa5eb704e55edb4f88587d569c8e8a6ca635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 20/49] fix: NO ACTION and RESTRICT are the same foreign key
 action

They are for InnoDB, and MySQL 8.0 does not report NO ACTION, so a
foreign key declared with it was dropped and added by every apply.
---
 mygrations/formats/mysql/definitions/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index a4f33a0..aeb3e2b 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -137,7 +137,10 @@ class Table(BaseTable):
         for added_constraint in added_constraints:
             constraints.add_operation(AddConstraint(comparison_table.constraints[added_constraint]))
         for overlap_constraint in overlap_constraints:
-            if str(self.constraints[overlap_constraint]) == str(comparison_table.constraints[overlap_constraint]):
+            # InnoDB makes no difference between NO ACTION and RESTRICT, and 8.0 does not report NO ACTION
+            if str(self.constraints[overlap_constraint]).replace("NO ACTION", "RESTRICT") == str(
+                comparison_table.constraints[overlap_constraint]
+            ).replace("NO ACTION", "RESTRICT"):
                 continue
 
             # foreign key constraints are modified by first dropping the constraint and
-- 
2.43.0


From 2410d5355047620002729144311af9e150172150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 21/49] fix: columns declared with synonyms or implied lengths
 come to rest

NUMERIC, DECIMAL(10), DECIMAL, CHAR, BINARY, BIT, YEAR and a lower case
current_timestamp are reported differently by the database, so they were
changed by every apply.  A reported BIT default raised ValueError.
---
 mygrations/core/definitions/columns/date.py   |  4 ++++
 .../formats/mysql/file_reader/parsers/type.py | 20 +++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index f44752d..c946d96 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -46,6 +46,10 @@ class Date(Column):
             return 'CURRENT_TIMESTAMP'
         return super()._default_as_sql()
 
+    def _is_really_the_same_default(self, column: Column) -> bool:
+        # the case only differs for CURRENT_TIMESTAMP
+        return str(self.default).upper() == str(column.default).upper()
+
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index 7d78368..37a2a85 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -1,3 +1,4 @@
+import re
 from mygrations.formats.mysql.definitions import columns
 from mygrations.core.definitions.columns.column import Column
 from mygrations.core.parse.quoting import unescape
@@ -105,13 +106,28 @@ class Type:
                 f"Found an unknown column type, '{column_type}' that does not have a corresponding column class"
             )
         column_class = self.column_type_map[column_type]
+        length = getattr(self, "_length", None)
+        default = getattr(self, "_default", None)
+
+        # the database always reports these in the same way, however they were declared
+        if column_type == "NUMERIC":
+            column_type = "DECIMAL"
+        if column_type == "DECIMAL":
+            length = length or "10"
+            length = length if "," in length else f"{length},0"
+        elif column_type in ("CHAR", "BINARY"):
+            length = length or "1"
+        elif (column_type, length) in (("BIT", "1"), ("YEAR", "4")):
+            length = ""
+        if column_type == "BIT" and default is not None:
+            default = re.sub("^b'(.*)'$", r"\1", default, flags=re.IGNORECASE)
         return column_class(
             name=self._name,
             column_type=column_type,
-            length=getattr(self, "_length", None),
+            length=length,
             null=getattr(self, "_null", None),
             has_default=getattr(self, "_has_default", False),
-            default=getattr(self, "_default", None),
+            default=default,
             unsigned=getattr(self, "_unsigned", None),
             character_set=getattr(self, "_character_set", None),
             collate=getattr(self, "_collate", None),
-- 
2.43.0


From e985ebcb0a5c01f0a79439c57f72b145cb0513e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 22/49] fix: the version and plan_export commands work

Both failed on import, version printed nothing, and plan_export could
not use a live database as a target (its tables have no semicolon and its
rows were a list) or meet a table that is only declared.
---
 mygrations/core/commands/plan_export.py        | 8 +++++---
 mygrations/core/commands/version.py            | 8 ++++----
 mygrations/formats/mysql/db_reader/database.py | 4 ++--
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/mygrations/core/commands/plan_export.py b/mygrations/core/commands/plan_export.py
index 995a32b..fd99238 100644
--- a/mygrations/core/commands/plan_export.py
+++ b/mygrations/core/commands/plan_export.py
@@ -6,12 +6,11 @@ from mygrations.formats.mysql.db_reader.database import Database as DatabaseRead
 from mygrations.formats.mysql.mygrations.mygration import Mygration
 from mygrations.formats.mysql.mygrations.row_mygration import RowMygration
 from mygrations.formats.mysql.mygrations.operations.row_insert import RowInsert
-from mygrations.drivers.mysqldb.mysqldb import mysqldb
 def execute(options, print_results=True):
 
     obj = PlanExport(options)
     return obj.execute(print_results=print_results)
-class PlanExport(base):
+class PlanExport(Base):
     def execute(self, print_results=True):
 
         files_database = DatabaseParser(self.get_sql_files())
@@ -46,6 +45,9 @@ class PlanExport(base):
 
         operations = []
         for table_name in self.modified_tables.keys():
+            # a table that is only declared has nothing to export
+            if table_name not in live_database.tables:
+                continue
             if print_results:
                 print('\033[1;33m\033[41m%s\033[0m' % table_name)
             table = live_database.tables[table_name]
@@ -57,7 +59,7 @@ class PlanExport(base):
                 if print_results:
                     print('\n')
                 for row in table.rows.values():
-                    operation = row_insert(table.name, row)
+                    operation = RowInsert(table.name, row)
                     if print_results:
                         print(operation)
                     operations.append(operation)
diff --git a/mygrations/core/commands/version.py b/mygrations/core/commands/version.py
index 9c17d78..5ea004c 100644
--- a/mygrations/core/commands/version.py
+++ b/mygrations/core/commands/version.py
@@ -1,10 +1,10 @@
-from .base import base
+from .base import Base
 import mygrations
 def execute(options, print_results=True):
 
     obj = Version(options)
     return obj.execute(print_results=print_results)
-class Version(base):
+class Version(Base):
     def execute(self, print_results=True):
         version_info = [
             f'mygrations v{mygrations.__version__}',
@@ -12,5 +12,5 @@ class Version(base):
             'MIT License',
         ]
         if print_results:
-            "\n".join(version_info)
-        return (print_results, True)
+            print("\n".join(version_info))
+        return (version_info, True)
diff --git a/mygrations/formats/mysql/db_reader/database.py b/mygrations/formats/mysql/db_reader/database.py
index 2ffa120..14e4941 100644
--- a/mygrations/formats/mysql/db_reader/database.py
+++ b/mygrations/formats/mysql/db_reader/database.py
@@ -11,7 +11,7 @@ class Database(DatabaseDefinition):
         """
         self.conn = conn
         self._tables = {}
-        self._rows = []
+        self._rows = {}
         self._global_errors = []
         self._global_warnings = []
 
@@ -29,7 +29,7 @@ class Database(DatabaseDefinition):
         for (table, create_table) in conn.tables().items():
             # without this table the picture of the database is wrong, and so is any plan made from it
             reader = Reader()
-            reader.parse(create_table)
+            reader.parse(create_table if create_table.rstrip().endswith(';') else create_table + ';')
             if reader.global_errors:
                 raise ValueError("Error in table %s: %s" % (create_table, ", ".join(reader.global_errors)))
 
-- 
2.43.0


From d6027f8ea1355249732ba58383fdb6f7e33f7768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 23/49] fix: ENUM columns with a collation of their own can be
 read back

---
 mygrations/formats/mysql/file_reader/parsers/type_enum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index cac9ae5..3637163 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -15,6 +15,9 @@ class TypeEnum(Parser, Type):
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
         {"type": "literal", "value": ")"},
+        # MySQL itself reports these before the rest, while most people write them last
+        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": f"DEFAULT ({QUOTED}|[^\(\s\),]+)", "optional": True, "name": "default"},
-- 
2.43.0


From 30bbae5388695ed008366ce4382c076886c99310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 24/49] fix: column names that start with unique are no unique
 indexes

---
 mygrations/formats/mysql/file_reader/parsers/index_key.py    | 2 +-
 mygrations/formats/mysql/file_reader/parsers/index_unique.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/index_key.py b/mygrations/formats/mysql/file_reader/parsers/index_key.py
index 9d6234c..75eefc8 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_key.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_key.py
@@ -7,7 +7,7 @@ class IndexKey(Parser, Index):
 
     # KEY account_id (account_id,name)
     rules = [
-        {"type": "regexp", "name": "index_name", "value": "(KEY)|(INDEX)"},
+        {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b"},
         {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index becdf76..8de2756 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -7,8 +7,8 @@ class IndexUnique(Parser, Index):
 
     # UNIQUE account_id (account_id)
     rules = [
-        {"type": "literal", "value": "UNIQUE"},
-        {"type": "regexp", "name": "index_name", "value": "(KEY)|(INDEX)", "optional": True},
+        {"type": "regexp", "name": "unique", "value": r"UNIQUE\b"},
+        {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b", "optional": True},
         {"type": "regexp", "name": "name", "value": "[^\(]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
-- 
2.43.0


From d22e2e758aae414525cd731886fbe9dc0d682dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 25/49] fix: the index a removed foreign key leaves behind is
 an ordinary index

---
 mygrations/formats/mysql/definitions/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index aeb3e2b..7723c9b 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -95,7 +95,8 @@ class Table(BaseTable):
         # index with a shorter name the diff sees an ADD + DROP pair.  Suppress
         # these false-positives by matching removed/added indexes that cover the
         # same columns & type AND where one of the names is a known constraint.
-        all_constraint_names = set(self.constraints.keys()) | set(comparison_table.constraints.keys())
+        # A constraint that goes away leaves its index behind as an ordinary one.
+        all_constraint_names = set(comparison_table.constraints.keys())
         matched_added = set()
         matched_removed = set()
         for rk in removed_keys:
-- 
2.43.0


From 37b29546bcec4b30c80f23a64233e85cbc88a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:05 +0000
Subject: [PATCH 26/49] fix: rows of a table that gets its id column are
 replaced by the declared ones

They were kept by the apply that added the column, and only the next one
deleted them.
---
 mygrations/formats/mysql/definitions/table.py          | 10 ++++++++--
 .../formats/mysql/mygrations/operations/row_delete.py  |  6 ++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 7723c9b..3b17e82 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -189,9 +189,15 @@ class Table(BaseTable):
                 % (self.name)
             )
 
-        (inserted_ids, deleted_ids, updated_ids) = self._differences(from_table.rows if from_table else {}, self.rows)
-
         operations = []
+        from_rows = from_table.rows if from_table else {}
+        if from_rows and "id" not in from_table.columns:
+            # none of them can be a declared row, and there is no id to tell them apart
+            operations.append(RowDelete(self.name))
+            from_rows = {}
+
+        (inserted_ids, deleted_ids, updated_ids) = self._differences(from_rows, self.rows)
+
         for row_id in deleted_ids:
             operations.append(RowDelete(self.name, row_id))
 
diff --git a/mygrations/formats/mysql/mygrations/operations/row_delete.py b/mygrations/formats/mysql/mygrations/operations/row_delete.py
index 01a0860..27319e8 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_delete.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_delete.py
@@ -1,7 +1,7 @@
 from mygrations.core.parse.quoting import escape
 class RowDelete:
-    """ Generates an SQL command to delete a record """
-    def __init__(self, table_name, row_id):
+    """ Generates an SQL command to delete a record, or all of them if no row id is given """
+    def __init__(self, table_name, row_id=None):
         if type(table_name) != str:
             self._table_name = table_name.name
         else:
@@ -19,4 +19,6 @@ class RowDelete:
         return self._table_name
 
     def __str__(self):
+        if self.row_id is None:
+            return "DELETE FROM `%s`;" % self._table_name
         return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, escape(self.row_id))
-- 
2.43.0


From 78ff3f4e90422650beae1f850b8065206fdb5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 27/49] fix: a foreign key may connect INT(10) and INT

MySQL 8 reports no display widths, so the exported definition of one of
two tables made the check of the foreign key between them fail.
---
 mygrations/core/definitions/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 56e254b..fb7bd41 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -297,6 +297,9 @@ class Database:
         for attr in ['column_type', 'length', 'character_set', 'collate']:
             table_value = getattr(table_column, attr)
             foreign_value = getattr(foreign_column, attr)
+            if attr == 'length' and not (table_value and foreign_value) and table_column.length_is_only_display_width:
+                # MySQL 8 does not report display widths, and they do not matter to a foreign key
+                continue
             if table_value != foreign_value:
                 return "Constraint error for foreign key `%s`: %s mismatch. `%s`.`%s` is '%s' but `%s`.`%s` is '%s'" % (
                     constraint.name, attr.replace('_', ' '), table.name, constraint.column_name, table_value,
-- 
2.43.0


From a61ed51fe76c88178d0966719a3f27e4eec04602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 28/49] fix: an unreadable configuration is not passed over for
 one further up

If the nearest configuration file could not be looked at, the one of a parent
directory was used, and with it another database.
---
 mygrations/core/commands/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/commands/base.py b/mygrations/core/commands/base.py
index 8b0d637..52db11a 100644
--- a/mygrations/core/commands/base.py
+++ b/mygrations/core/commands/base.py
@@ -1,4 +1,4 @@
-import os, os.path
+import os, os.path, stat
 from mygrations.helpers.dotenv import dotenv
 from mygrations.helpers.db_credentials import DbCredentials
 from mygrations.drivers.pymysql.pymysql import PyMySQL
@@ -72,7 +72,7 @@ class Base(object):
         # and we want to throw an exception if it does not match.  However, if it is not an absolute path we
         # want to search for the given file in current directory or its parents.
         if file_path[0] == '/':
-            if not os.path.isfile(file_path):
+            if not self._is_file(file_path):
                 raise ValueError("Specified configuration file '%s' does not exist" % file_path)
             return file_path
 
@@ -81,11 +81,19 @@ class Base(object):
         ndirectories = len(directories)
         for i in range(ndirectories):
             abs_path = '/%s/%s' % ('/'.join(directories[:ndirectories - i]), filename)
-            if os.path.isfile(abs_path):
+            if self._is_file(abs_path):
                 return abs_path
 
         raise ValueError("Could not find configuration file '%s' in current directory or parents" % file_path)
 
+    def _is_file(self, path):
+        # unlike os.path.isfile, because a file that is there but cannot be looked at must not make
+        # us continue with the configuration file of some other directory
+        try:
+            return stat.S_ISREG(os.stat(path).st_mode)
+        except (FileNotFoundError, NotADirectoryError):
+            return False
+
     def _relative_to_config_abs_path(self, relative_path, config_abs_path):
         # Our file directory and our .env file path should both be relative to the location of the mygrate.conf file.
         # The exact path to the mygrate.conf file can change because it is allowed to be in a parent of the
-- 
2.43.0


From 526210b487bc72f59e1da1761184def04fd44cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 29/49] fix: plan-export refuses broken declarations and
 compares rows the way plan does

---
 mygrations/core/commands/plan_export.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/commands/plan_export.py b/mygrations/core/commands/plan_export.py
index fd99238..d94c158 100644
--- a/mygrations/core/commands/plan_export.py
+++ b/mygrations/core/commands/plan_export.py
@@ -1,3 +1,4 @@
+import sys
 from collections import OrderedDict
 
 from .base import Base
@@ -15,6 +16,13 @@ class PlanExport(Base):
 
         files_database = DatabaseParser(self.get_sql_files())
 
+        # declarations which can't be trusted can't be compared with anything
+        if files_database.errors and not self.options.get('force'):
+            print('Errors found in *.sql files', file=sys.stderr)
+            for error in files_database.errors:
+                print(error, file=sys.stderr)
+            return ([], False)
+
         # use the credentials to load up a database connection
         live_database = DatabaseReader(self.get_driver())
 
@@ -23,7 +31,9 @@ class PlanExport(Base):
         # way to do that is to simply run an actual mygration and grab out the names
         # of the tables that have changed.  Cheating, I know
         self.modified_tables = {}
-        mygrate = Mygration(live_database, files_database, False)
+        mygrate = Mygration(files_database, live_database, False)
+        if mygrate.operations is None:
+            mygrate = Mygration(live_database, files_database, False)
         if mygrate.operations:
             for op in mygrate.operations:
                 self.modified_tables[op.table_name] = True
@@ -38,7 +48,7 @@ class PlanExport(Base):
                 continue
             live_database.read_rows(table)
 
-        rows = RowMygration(live_database, files_database)
+        rows = RowMygration(files_database, live_database)
         if rows.operations:
             for op in rows.operations:
                 self.modified_tables[op.table_name] = True
-- 
2.43.0


From 9107a5b3a0d8ffb9dd94be84fe02e910974709a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:35 +0000
Subject: [PATCH 30/49] fix: empty host, user or database in the env file is an
 error, not localhost

---
 mygrations/helpers/db_credentials.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/helpers/db_credentials.py b/mygrations/helpers/db_credentials.py
index 31358ac..7db2cd6 100644
--- a/mygrations/helpers/db_credentials.py
+++ b/mygrations/helpers/db_credentials.py
@@ -25,6 +25,9 @@ class DbCredentials:
             key_name = self.config[key]
             if not key_name in self.env:
                 raise ValueError("Failed to fulfill %s: key %s not found in .env" % (val, key_name))
+            # without a value pymysql would quietly choose one (localhost, for instance)
+            if self.env[key_name] == '' and val != 'password':
+                raise ValueError("Failed to fulfill %s: key %s is empty in .env" % (val, key_name))
 
             self.credentials[val] = self.env[key_name]
 
-- 
2.43.0


From a233704b231956e364832cd55102530bf3cb71f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:31 +0000
Subject: [PATCH 31/49] fix: exported BLOB and TIME values are written the way
 MySQL reads them

---
 mygrations/core/parse/quoting.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mygrations/core/parse/quoting.py b/mygrations/core/parse/quoting.py
index c34cf4a..b0b46b2 100644
--- a/mygrations/core/parse/quoting.py
+++ b/mygrations/core/parse/quoting.py
@@ -1,4 +1,5 @@
 import re
+from datetime import timedelta
 
 # a complete quoted string, including its escaped and doubled quotes
 QUOTED = r"""'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|`[^`]*`"""
@@ -45,4 +46,16 @@ def unescape(string, quote="'"):
 
 def escape(value):
     """Returns the text to put between single quotes to represent a value in SQL"""
+    if isinstance(value, bytes):
+        value = value.decode()
+    elif isinstance(value, timedelta):
+        # str() would count whole days
+        (minutes, seconds) = divmod(abs(value).seconds, 60)
+        value = "%s%02d:%02d:%02d%s" % (
+            "-" if value < timedelta(0) else "",
+            abs(value).days * 24 + minutes // 60,
+            minutes % 60,
+            seconds,
+            ".%06d" % abs(value).microseconds if value.microseconds else "",
+        )
     return str(value).replace("\\", "\\\\").replace("'", "\\'")
-- 
2.43.0


From 135a8b056aa556c17b799caca83fa2e9d641bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:37 +0000
Subject: [PATCH 32/49] fix: the error for a row with too many or too few
 values names the table and the row

---
 mygrations/formats/mysql/file_reader/insert_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/insert_parser.py b/mygrations/formats/mysql/file_reader/insert_parser.py
index 1f407fa..9015e30 100644
--- a/mygrations/formats/mysql/file_reader/insert_parser.py
+++ b/mygrations/formats/mysql/file_reader/insert_parser.py
@@ -54,7 +54,9 @@ class InsertParser(Parser, Rows):
                 self._parsing_warnings.append('Missing comma between insert value groups')
 
             if self._num_explicit_columns and len(row.values) != self._num_explicit_columns:
-                self._parsing_errors.append('Insert values has different number of columns and values for %s' % (row))
+                self._parsing_errors.append(
+                    'Insert values has different number of columns and values for table %s: %s' % (self._table, row.values)
+                )
                 continue
 
             self._raw_rows.append(row.values)
-- 
2.43.0


From 8639145618faf23e6895d64e8ba31216dc021e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 33/49] fix: an option of a table cannot contain parentheses,
 so that a stray one is an error and not the end of the columns

---
 mygrations/formats/mysql/file_reader/parsers/table_option.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/table_option.py b/mygrations/formats/mysql/file_reader/parsers/table_option.py
index 4e45a14..c3dc696 100644
--- a/mygrations/formats/mysql/file_reader/parsers/table_option.py
+++ b/mygrations/formats/mysql/file_reader/parsers/table_option.py
@@ -7,7 +7,7 @@ class TableOption(Parser):
     # UNIQUE account_id (account_id)
     rules = [{
         'type': 'regexp',
-        'value': '[^=]{1,30}',
+        'value': '[^=()]{1,30}',
         'name': 'name'
     }, {
         'type': 'literal',
-- 
2.43.0


From bb34d832fe2aa8c8c7572526979d03e846818c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 34/49] fix: a list with a missing value or separator is
 refused and not read as something else

---
 mygrations/core/parse/rule_delimited.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 41e2cc1..a8bcdb7 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -83,6 +83,8 @@ class RuleDelimited(RuleBase):
 
         # it's ugly, but we will do this one character at a time
         has_word = False
+        expect_value = True
+        malformed = False
         vals = []
         current = ''
         in_quote = False
@@ -108,6 +110,8 @@ class RuleDelimited(RuleBase):
 
                 # open word
                 if not in_quote:
+                    malformed = malformed or has_word or not expect_value
+                    expect_value = False
                     in_quote = True
                     has_word = True
                     current = ''
@@ -128,6 +132,7 @@ class RuleDelimited(RuleBase):
                 if string[index:index + end_len].lower() == end:
                     if has_word:
                         vals.append(self._bare_word(current))
+                    malformed = malformed or expect_value
                     break
 
                 # if we hit a separator then we need to start a new word
@@ -136,6 +141,8 @@ class RuleDelimited(RuleBase):
                     if has_word:
                         vals.append(self._bare_word(current))
                         has_word = False
+                    malformed = malformed or expect_value
+                    expect_value = True
                     current = ''
 
                     continue
@@ -150,6 +157,8 @@ class RuleDelimited(RuleBase):
                     continue
 
                 # otherwise we have a character for a word
+                malformed = malformed or char == '(' or not (has_word or expect_value)
+                expect_value = False
                 has_word = True
                 current += char
                 continue
@@ -163,8 +172,9 @@ class RuleDelimited(RuleBase):
         if in_quote:
             raise SyntaxError("Opening quote without closing quote at %s" % string)
 
-        # did we match anything?
-        if not vals:
+        # did we match anything?  A list with a value missing, or with anything
+        # other than one separator between two values, is not one that we understand
+        if malformed or not vals:
             self.leftovers = string
             self.result = ''
             return False
-- 
2.43.0


From cbbcddcee76c4bf64d16bd2ed5bee000c5da88b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 35/49] fix: the name of an index is one word, so that whatever
 else precedes its columns is an error

---
 mygrations/formats/mysql/file_reader/parsers/index_key.py    | 2 +-
 mygrations/formats/mysql/file_reader/parsers/index_unique.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/index_key.py b/mygrations/formats/mysql/file_reader/parsers/index_key.py
index 75eefc8..e75e055 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_key.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_key.py
@@ -8,7 +8,7 @@ class IndexKey(Parser, Index):
     # KEY account_id (account_id,name)
     rules = [
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b"},
-        {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
+        {"type": "regexp", "name": "name", "value": r"`[^`]+`|[^\(\)\s,'\"`]+"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index 8de2756..060d594 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -9,7 +9,7 @@ class IndexUnique(Parser, Index):
     rules = [
         {"type": "regexp", "name": "unique", "value": r"UNIQUE\b"},
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b", "optional": True},
-        {"type": "regexp", "name": "name", "value": "[^\(]+", "optional": True},
+        {"type": "regexp", "name": "name", "value": r"`[^`]+`|[^\(\)\s,'\"`]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
-- 
2.43.0


From d27c68c066d8d824832aac4b9a2d0e981ae47074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 36/49] fix: NULL among the values of an enum is reported as an
 error

---
 mygrations/formats/mysql/file_reader/parsers/type_enum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 3637163..b2c0ba7 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -31,7 +31,9 @@ class TypeEnum(Parser, Type):
         self._init_errors()
         self._name = self._extract_name()
         self._column_type = self._values["type"]
-        self._enum_values = [unescape(value) for value in self._values["enum_values"]]
+        self._enum_values = [unescape(value) for value in self._values["enum_values"] if value is not None]
+        if len(self._enum_values) != len(self._values["enum_values"]):
+            self._parsing_errors.append(f"Column '{self._name}' has NULL in its list of values")
         self._length = self._enum_values
         self._null = self._extract_null()
         self._has_default = "default" in self._values
-- 
2.43.0


From 523d316867ce987429818de59eb8ffda26bc6788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 37/49] fix: a foreign key between columns whose tables declare
 different character sets is reported as an error

---
 mygrations/core/definitions/database.py | 33 ++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index fb7bd41..1cd2516 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -169,7 +169,7 @@ class Database:
                 continue
 
             for constraint in table.constraints.values():
-                error = self.find_constraint_errors(table, constraint)
+                error = self.find_constraint_errors(table, constraint) or self._find_charset_error(table, constraint)
                 if error:
                     errors.append(error)
 
@@ -337,6 +337,37 @@ class Database:
 
         return None
 
+    def _find_charset_error(self, table, constraint):
+        """ Returns an error if the columns of a foreign key get different character sets from their tables
+
+        A column without a character set or collation of its own has the one which its table declares.
+        """
+        foreign_table = self.tables[constraint.foreign_table_name]
+        column = table.columns[constraint.column_name]
+        foreign_column = foreign_table.columns[constraint.foreign_column_name]
+        if column.column_type not in ['CHAR', 'VARCHAR', 'ENUM', 'SET']:
+            return None
+        if column.character_set or column.collate or foreign_column.character_set or foreign_column.collate:
+            return None
+
+        charset, foreign_charset = [self._table_charset(to_check) for to_check in [table, foreign_table]]
+        if not charset or not foreign_charset or charset == foreign_charset:
+            return None
+        return "Constraint error for foreign key `%s`: character set mismatch. `%s`.`%s` is '%s' but `%s`.`%s` is '%s'" % (
+            constraint.name, table.name, column.name, charset, foreign_table.name, foreign_column.name, foreign_charset
+        )
+
+    def _table_charset(self, table):
+        """ Returns the character set which the options of the table declare, or None """
+        charset = None
+        for option in table.options:
+            name = ' '.join(option.name.upper().split()[-2:])
+            if name.split()[-1] == 'CHARSET' or name == 'CHARACTER SET':
+                charset = option.value.strip("'\"").lower()
+            elif name.split()[-1] == 'COLLATE' and charset is None:
+                charset = option.value.strip("'\"").lower().split('_')[0]
+        return 'utf8mb3' if charset == 'utf8' else charset
+
     def unfulfilled_fks(self, table):
         """ Returns a dictionary with information about all constraints in the table which are not fulfilled by this database
 
-- 
2.43.0


From eb4e7ea06aa7e3f7efdb0bf98a9b5653f7795b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:22 +0000
Subject: [PATCH 38/49] fix: declared JSON, CHAR, SET and BINARY values which
 the server stores in another form are not updated forever

---
 mygrations/formats/mysql/definitions/table.py | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 3b17e82..8124d74 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -1,3 +1,4 @@
+import json
 from collections import OrderedDict
 from .rows import Rows as RowsDefinition
 from ..mygrations.operations.alter_table import AlterTable
@@ -207,7 +208,7 @@ class Table(BaseTable):
             (inserted_cols, deleted_cols, updated_cols) = self._differences(self.rows[row_id], from_table.rows[row_id])
             differences = True if deleted_cols else False
             for col in updated_cols:
-                if not self._loose_equal(self.rows[row_id][col], from_table.rows[row_id][col]):
+                if not self._same_value(col, self.rows[row_id][col], from_table.rows[row_id][col]):
                     differences = True
                     break
 
@@ -219,3 +220,30 @@ class Table(BaseTable):
             operations.append(RowInsert(self.name, self.rows[row_id]))
 
         return operations
+
+    def _same_value(self, column_name, val1, val2):
+        """ Returns true if the server stores the same thing for both values of the column """
+        if self._loose_equal(val1, val2):
+            return True
+        if val1 is None or val2 is None or column_name not in self._columns:
+            return False
+
+        column_type = self._columns[column_name].column_type
+        if column_type == "BINARY":
+            return self._unpadded(val1) == self._unpadded(val2)
+        if not isinstance(val1, str) or not isinstance(val2, str):
+            return False
+        if column_type == "JSON":
+            try:
+                return json.dumps(json.loads(val1), sort_keys=True) == json.dumps(json.loads(val2), sort_keys=True)
+            except ValueError:
+                return False
+        if column_type == "CHAR":
+            return val1.rstrip(" ") == val2.rstrip(" ")
+        if column_type == "SET":
+            return set(val1.split(",")) == set(val2.split(","))
+        return False
+
+    def _unpadded(self, value):
+        """ Returns the value without the zeros which the server adds at the end """
+        return (value if isinstance(value, bytes) else str(value).encode()).rstrip(b"\0")
-- 
2.43.0


From 7d4cff5a64d711623a09ccff6c596b8afa2ad4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 39/49] fix: unquoted words among declared row values and enum
 values are not read as text

TRUE and FALSE are 1 and 0, as they are for MySQL; DEFAULT, functions,
hexadecimal and other literals are refused.
---
 mygrations/core/parse/rule_delimited.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index a8bcdb7..4f8a3b5 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -1,4 +1,9 @@
+import re
 from .rule_base import RuleBase
+
+NUMBER = re.compile(r"[+-]?(\d+(\.\d*)?|\.\d+)(e[+-]?\d+)?$", re.IGNORECASE)
+
+
 class RuleDelimited(RuleBase):
     """ rule = rule_delimited( parser, rule, next_rule )
 
@@ -32,6 +37,7 @@ class RuleDelimited(RuleBase):
     """
 
     require_value = False
+    bare_words = {'NULL': None, 'TRUE': '1', 'FALSE': '0'}
 
     separator = ''
     quote = ''
@@ -73,8 +79,14 @@ class RuleDelimited(RuleBase):
             )
 
     def _bare_word(self, word):
-        # among quoted strings an unquoted NULL is not a string
-        return None if self.quote == "'" and word.upper() == 'NULL' else word
+        # among quoted strings an unquoted NULL is not a string, and neither are TRUE and FALSE
+        if self.quote == "'" and word.upper() in self.bare_words:
+            return self.bare_words[word.upper()]
+        return word
+
+    def _is_allowed(self, word):
+        # among quoted strings anything else without quotes means something other than its own text
+        return self.quote != "'" or word.upper() in self.bare_words or bool(NUMBER.match(word))
 
     def parse(self, string):
 
@@ -131,6 +143,7 @@ class RuleDelimited(RuleBase):
 
                 if string[index:index + end_len].lower() == end:
                     if has_word:
+                        malformed = malformed or not self._is_allowed(current)
                         vals.append(self._bare_word(current))
                     malformed = malformed or expect_value
                     break
@@ -139,6 +152,7 @@ class RuleDelimited(RuleBase):
                 if char == self.separator:
 
                     if has_word:
+                        malformed = malformed or not self._is_allowed(current)
                         vals.append(self._bare_word(current))
                         has_word = False
                     malformed = malformed or expect_value
@@ -150,6 +164,7 @@ class RuleDelimited(RuleBase):
                 # skip white space outside of quotes (also end a word)
                 if char == ' ':
                     if has_word:
+                        malformed = malformed or not self._is_allowed(current)
                         vals.append(self._bare_word(current))
                         has_word = False
 
-- 
2.43.0


From df5e711d21d38dea14f037b556aa70301be82542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 40/49] fix: a declared table which is qualified with a
 database is refused and not created on every run

---
 mygrations/formats/mysql/file_reader/create_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index d36edc4..b22d6bd 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -137,5 +137,8 @@ class CreateParser(Table, Parser):
             else:
                 raise ValueError(f"Found unknown definition of type {definition.__class__}")
 
+        if "." in self._name or "`" in self._name:
+            self._global_errors.append(f"Table '{self._name}' cannot be in another database")
+
         if not self.semicolon:
             self._global_errors.append("Missing ending semicolon for table %s" % self._name)
-- 
2.43.0


From 65f7bd27fcfe072966c002ef0df9efef63fa3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 41/49] fix: an INSERT which sets a column twice is reported as
 an error

---
 mygrations/formats/mysql/file_reader/insert_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/insert_parser.py b/mygrations/formats/mysql/file_reader/insert_parser.py
index 9015e30..c9b3844 100644
--- a/mygrations/formats/mysql/file_reader/insert_parser.py
+++ b/mygrations/formats/mysql/file_reader/insert_parser.py
@@ -45,6 +45,8 @@ class InsertParser(Parser, Rows):
         self._schema_warnings = []
         self._parsing_errors = []
         self._parsing_warnings = []
+        if len(set(self._columns)) != len(self._columns):
+            self._parsing_errors.append('Insert into table %s sets a column more than once' % self._table)
         self.has_semicolon = True if 'closing_semicolon' in self._values else False
 
         had_comma = True
-- 
2.43.0


From 32662b1c40b3d4eb81411ca5dfe07f101278bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 42/49] fix: nullable TIMESTAMP columns are created as such by
 servers before MySQL 8

---
 mygrations/core/definitions/columns/column.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index f714f7f..784a73d 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -227,6 +227,9 @@ class Column(Base):
 
         if not self.null:
             parts.append("NOT NULL")
+        elif self.column_type == "TIMESTAMP":
+            # before MySQL 8 it is the only type which does not allow null values by default
+            parts.append("NULL")
 
         if self.default is not None:
             parts.append("DEFAULT %s" % self._default_as_sql())
-- 
2.43.0


From 9ef8119a9d3c8a1380f743eb777a3347a909b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 43/49] fix: words which cannot be the default of a date or
 time column are reported as an error

---
 mygrations/core/definitions/columns/date.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index c946d96..a50d99c 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -1,3 +1,4 @@
+import re
 from .column import Column
 from typing import List, Union
 class Date(Column):
@@ -53,6 +54,9 @@ class Date(Column):
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
+        if self.default is not None and not re.search(r"\d|^CURRENT_TIMESTAMP$", str(self.default), re.IGNORECASE):
+            self._schema_errors.append(f"Column '{self.name}' cannot have the default '{self.default}'")
+
         if self.length:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a length")
 
-- 
2.43.0


From e807d579cba26af5a46b186b51e3b3e8856f9aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 44/49] fix: the character set of a column is written where the
 server accepts it

---
 mygrations/core/definitions/columns/column.py     | 15 ++++++++++++++-
 mygrations/core/definitions/columns/string.py     | 10 ++++++++++
 mygrations/core/operations/add_column.py          |  2 +-
 mygrations/core/operations/change_column.py       |  2 +-
 mygrations/core/operations/create_table.py        |  2 +-
 .../mysql/mygrations/operations/add_column.py     |  2 +-
 .../mysql/mygrations/operations/change_column.py  |  2 +-
 .../mysql/mygrations/operations/create_table.py   |  2 +-
 8 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 784a73d..5113729 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -212,6 +212,14 @@ class Column(Base):
 
         :returns: A partial MySQL command that could be used to generate the column
         """
+        return " ".join(self._type_as_sql() + self._attributes_as_sql())
+
+    def definition(self) -> str:
+        """Returns the definition of the column with everything where the server expects it"""
+        return str(self)
+
+    def _type_as_sql(self) -> List[str]:
+        """Returns the beginning of the definition: the name and the type"""
         parts = []
         parts.append("`%s`" % self.name)
 
@@ -225,6 +233,11 @@ class Column(Base):
         if self.unsigned:
             parts.append("UNSIGNED")
 
+        return parts
+
+    def _attributes_as_sql(self) -> List[str]:
+        """Returns the rest of the definition: what follows the type"""
+        parts = []
         if not self.null:
             parts.append("NOT NULL")
         elif self.column_type == "TIMESTAMP":
@@ -237,7 +250,7 @@ class Column(Base):
         if self.auto_increment:
             parts.append("AUTO_INCREMENT")
 
-        return " ".join(parts)
+        return parts
 
     def _default_as_sql(self) -> str:
         """Returns the default value the way it has to be written in SQL"""
diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index ac98f8d..af18292 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -96,6 +96,16 @@ class String(Column):
 
         return as_string
 
+    def definition(self) -> str:
+        # the server only understands the character set when it comes right after the type
+        parts = self._type_as_sql()
+        if self.character_set:
+            parts.append(f"CHARACTER SET '{self.character_set}'")
+        parts += self._attributes_as_sql()
+        if self.collate:
+            parts.append(f"COLLATE '{self.collate}'")
+        return " ".join(parts)
+
     def _default_as_sql(self) -> str:
         # a string of digits is still a string: '007' and 007 are not the same default
         return "'%s'" % escape(self.default)
diff --git a/mygrations/core/operations/add_column.py b/mygrations/core/operations/add_column.py
index 827e4c0..f9b2e74 100644
--- a/mygrations/core/operations/add_column.py
+++ b/mygrations/core/operations/add_column.py
@@ -39,4 +39,4 @@ class AddColumn:
         else:
             position = ''
 
-        return 'ADD %s%s' % (str(self._column), position)
+        return 'ADD %s%s' % (self._column.definition(), position)
diff --git a/mygrations/core/operations/change_column.py b/mygrations/core/operations/change_column.py
index e50deb7..089aba5 100644
--- a/mygrations/core/operations/change_column.py
+++ b/mygrations/core/operations/change_column.py
@@ -10,4 +10,4 @@ class ChangeColumn:
         table.change_column(self.column)
 
     def __str__(self):
-        return 'CHANGE `%s` %s' % (self.column.name, str(self.column))
+        return 'CHANGE `%s` %s' % (self.column.name, self.column.definition())
diff --git a/mygrations/core/operations/create_table.py b/mygrations/core/operations/create_table.py
index 4bb9cf6..f50d249 100644
--- a/mygrations/core/operations/create_table.py
+++ b/mygrations/core/operations/create_table.py
@@ -16,7 +16,7 @@ class CreateTable:
         newline = '\n' if self._nice else ''
         padding = '  ' if self._nice else ''
         body_separator = ',\n' if self._nice else ','
-        body = ['%s%s' % (padding, str(self._table.columns[col])) for col in self._table.columns]
+        body = ['%s%s' % (padding, self._table.columns[col].definition()) for col in self._table.columns]
         body.extend(['%s%s' % (padding, str(self._table.indexes[index])) for index in self._table.indexes])
         body.extend([
             '%s%s' % (padding, str(self._table.constraints[constraint])) for constraint in self._table.constraints
diff --git a/mygrations/formats/mysql/mygrations/operations/add_column.py b/mygrations/formats/mysql/mygrations/operations/add_column.py
index 28ffdb3..c7056b6 100644
--- a/mygrations/formats/mysql/mygrations/operations/add_column.py
+++ b/mygrations/formats/mysql/mygrations/operations/add_column.py
@@ -40,4 +40,4 @@ class AddColumn:
         else:
             position = ''
 
-        return 'ADD %s%s' % (str(self.column), position)
+        return 'ADD %s%s' % (self.column.definition(), position)
diff --git a/mygrations/formats/mysql/mygrations/operations/change_column.py b/mygrations/formats/mysql/mygrations/operations/change_column.py
index 1e60fcc..e73f350 100644
--- a/mygrations/formats/mysql/mygrations/operations/change_column.py
+++ b/mygrations/formats/mysql/mygrations/operations/change_column.py
@@ -12,4 +12,4 @@ class ChangeColumn:
         table.change_column(self.column)
 
     def __str__(self):
-        return 'CHANGE `%s` %s' % (self.column.name, str(self.column))
+        return 'CHANGE `%s` %s' % (self.column.name, self.column.definition())
diff --git a/mygrations/formats/mysql/mygrations/operations/create_table.py b/mygrations/formats/mysql/mygrations/operations/create_table.py
index ee1a083..9b07952 100644
--- a/mygrations/formats/mysql/mygrations/operations/create_table.py
+++ b/mygrations/formats/mysql/mygrations/operations/create_table.py
@@ -24,7 +24,7 @@ class CreateTable:
     def __str__(self):
         newline = '\n' if self._nice else ''
         padding = '  ' if self._nice else ''
-        body = ['%s%s' % (padding, str(self.table.columns[col])) for col in self.table.columns]
+        body = ['%s%s' % (padding, self.table.columns[col].definition()) for col in self.table.columns]
         body.extend(['%s%s' % (padding, str(self.table.indexes[index])) for index in self.table.indexes])
         body.extend([
             '%s%s' % (padding, str(self.table.constraints[constraint])) for constraint in self.table.constraints
-- 
2.43.0


From 02d65ef1eb918e574797bdc02c17d6179fc1794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 45/49] fix: a default like x'41' is reported as an error
 instead of being taken for text

---
 mygrations/formats/mysql/file_reader/parsers/type.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index 37a2a85..be6d682 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -121,6 +121,9 @@ class Type:
             length = ""
         if column_type == "BIT" and default is not None:
             default = re.sub("^b'(.*)'$", r"\1", default, flags=re.IGNORECASE)
+        elif not self._is_quoted(self._values.get("default")) and re.search("['\"]", self._values.get("default") or ""):
+            # x'41' and friends mean something other than their own text
+            self._parsing_errors.append(f"Column '{self._name}' has a default which is not understood: {default}")
         return column_class(
             name=self._name,
             column_type=column_type,
-- 
2.43.0


From adb60f22efb06bd8ae796768ff62579bdc5b9f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 46/49] fix: a value which the server stores in another form is
 no difference, and an id is the same row however it is written

---
 mygrations/core/definitions/columns/column.py |  8 +++--
 mygrations/core/definitions/columns/date.py   | 26 +++++++++++++--
 mygrations/core/definitions/columns/enum.py   | 14 +++++++-
 .../core/definitions/columns/numeric.py       | 32 ++++++++++++-------
 mygrations/core/definitions/columns/string.py | 10 +++++-
 mygrations/core/definitions/table.py          | 10 ++++--
 mygrations/formats/mysql/definitions/table.py | 18 +++--------
 7 files changed, 84 insertions(+), 34 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 5113729..7398ee7 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -1,5 +1,5 @@
 from __future__ import annotations
-from typing import Union, List
+from typing import Any, Union, List
 from ..base import Base
 from mygrations.core.parse.quoting import escape
 
@@ -294,4 +294,8 @@ class Column(Base):
         return False
 
     def _is_really_the_same_default(self, column: Column) -> bool:
-        return self.default == column.default
+        return self.as_stored(self.default) == self.as_stored(column.default)
+
+    def as_stored(self, value: Any) -> Any:
+        """Returns a value for this column the way the server stores it, when it can be written in other ways"""
+        return value
diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index a50d99c..55c50b1 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -1,6 +1,8 @@
 import re
+from datetime import timedelta
 from .column import Column
-from typing import List, Union
+from typing import Any, List, Union
+from mygrations.core.parse.quoting import escape
 class Date(Column):
     _allowed_column_types = [
         'DATE',
@@ -49,7 +51,27 @@ class Date(Column):
 
     def _is_really_the_same_default(self, column: Column) -> bool:
         # the case only differs for CURRENT_TIMESTAMP
-        return str(self.default).upper() == str(column.default).upper()
+        return str(self.as_stored(self.default)).upper() == str(self.as_stored(column.default)).upper()
+
+    def as_stored(self, value: Any) -> Any:
+        if value is None:
+            return None
+        value = escape(value) if isinstance(value, timedelta) else str(value)
+        if self.column_type == 'YEAR':
+            return str(int(value) + (2000 if int(value) < 70 else 1900)) if re.match('[1-9][0-9]?$', value) else value
+        if self.column_type == 'TIME':
+            match = re.match(r'(-?)(\d+):(\d{1,2})(?::(\d{1,2})(?:\.0*)?)?$', value)
+            return '%s%02d:%02d:%02d' % (match[1], int(match[2]), int(match[3]), int(match[4] or 0)) if match else value
+
+        match = re.match(
+            r'(\d{4})[-/.](\d{1,2})[-/.](\d{1,2})(?:[ T](\d{1,2}):(\d{1,2})(?::(\d{1,2})(?:\.0*)?)?)?$', value
+        )
+        if not match:
+            return value
+        date = '%s-%02d-%02d' % (match[1], int(match[2]), int(match[3]))
+        if self.column_type == 'DATE':
+            return date
+        return '%s %02d:%02d:%02d' % (date, int(match[4] or 0), int(match[5] or 0), int(match[6] or 0))
 
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
diff --git a/mygrations/core/definitions/columns/enum.py b/mygrations/core/definitions/columns/enum.py
index 59d8043..b18e43a 100644
--- a/mygrations/core/definitions/columns/enum.py
+++ b/mygrations/core/definitions/columns/enum.py
@@ -1,5 +1,5 @@
 from .string import String
-from typing import List, Union
+from typing import Any, List, Union
 class Enum(String):
     _allowed_column_types = [
         'ENUM',
@@ -56,3 +56,15 @@ class Enum(String):
 
         if self.unsigned:
             self._schema_errors.append("Column %s cannot be unsigned" % self._name)
+
+    def as_stored(self, value: Any) -> Any:
+        # the server stores the values of the list, in the order of the list, whatever their case
+        if not isinstance(value, str) or not self.enum_values or value in self.enum_values:
+            return value
+        if self.column_type == 'SET':
+            wanted = value.lower().split(',')
+            found = [allowed for allowed in self.enum_values if allowed.lower() in wanted]
+            return ','.join(found) if len(found) == len(set(wanted)) else value
+        if value.isdecimal() and 1 <= int(value) <= len(self.enum_values):
+            return self.enum_values[int(value) - 1]
+        return next((allowed for allowed in self.enum_values if allowed.lower() == value.lower()), value)
diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 15aee5f..9cfd4ec 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -1,5 +1,7 @@
 from .column import Column
-from typing import List, Union
+import re
+from decimal import ROUND_HALF_UP, Context, Decimal
+from typing import Any, List, Union
 
 
 class Numeric(Column):
@@ -147,17 +149,23 @@ class Numeric(Column):
             return True
         if self.default is None or column.default is None:
             return False
-        if self.column_type != "DECIMAL":
+        if self.column_type in ["FLOAT", "DOUBLE"]:
             return float(self.default) == float(column.default)
 
-        # Default equality is mildly tricky for decimals because 0 and 0.000 are the same,
-        # and if there are 4 digits after the decimal than 0.0000 and 0.00001 are the same too
-        # This will come up if someone sets a default in an SQL file with too many (or too few) decimals,
+        # someone may set a default in an SQL file with too many (or too few) decimals,
         # while MySQL will report it properly rounded to the exact number of decimal places
-        split = self.length.split(",")
-        if len(split) == 2:
-            ndecimals = int(split[1])
-            if round(float(self.default), ndecimals) == round(float(column.default), ndecimals):
-                return True
-
-        return self.default == column.default
+        return self.as_stored(self.default) == self.as_stored(column.default)
+
+    def as_stored(self, value: Any) -> Any:
+        text = str(value).strip()
+        if not re.match(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)(e[+-]?[0-9]{1,2})?$", text, re.IGNORECASE):
+            return value
+        number = Decimal(text)
+        if self.column_type not in ["FLOAT", "DOUBLE"]:
+            # digits which there is no place for are rounded
+            (_, _, ndecimals) = str(self.length).partition(",") if self.column_type == "DECIMAL" else ("", "", "")
+            number = number.quantize(Decimal(1).scaleb(-int(ndecimals or 0)), ROUND_HALF_UP, Context(prec=200))
+        number = format(number, "f")
+        if "." in number:
+            number = number.rstrip("0").rstrip(".")
+        return "0" if number == "-0" else number
diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index af18292..0d7e744 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -1,5 +1,5 @@
 from .column import Column
-from typing import List, Union
+from typing import Any, List, Union
 from mygrations.core.parse.quoting import escape
 
 
@@ -169,6 +169,14 @@ class String(Column):
             return True
         return super()._is_really_the_same_default(column)
 
+    def as_stored(self, value: Any) -> Any:
+        # the end of the value is not kept, or it is filled up
+        if self.column_type == "CHAR" and isinstance(value, str):
+            return value.rstrip(" ")
+        if self.column_type == "BINARY" and value is not None:
+            return value.rstrip(b"\0") if isinstance(value, bytes) else str(value).rstrip("\0")
+        return value
+
     def is_really_the_same_as(self, column: Column) -> bool:
         if not super().is_really_the_same_as(column):
             return False
diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index e45b250..1715237 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -328,7 +328,7 @@ class Table:
                 continue
 
             # we need to know the id of this record
-            row_id = str(values[id_index]) if values[id_index] is not None else ""
+            row_id = self._row_id(values[id_index]) if values[id_index] is not None else ""
             if not row_id:
                 self._global_errors.append(
                     "Row is missing a value for the id column for table %s and row %s" % (self._name, values)
@@ -363,7 +363,7 @@ class Table:
         if self._rows is None:
             self._rows = OrderedDict()
 
-        row_id = str(row.get("id"))
+        row_id = self._row_id(row.get("id"))
         if not row_id:
             raise ValueError("Cannot manage records without an 'id' column and value")
         if row_id in self._rows:
@@ -380,6 +380,12 @@ class Table:
 
         self._rows[row_id] = converted_row
 
+    def _row_id(self, value: Any) -> str:
+        """Returns the id of a row, which has to be the same however its value is written"""
+        if isinstance(value, bytes):
+            value = value.decode(errors="backslashreplace")
+        return str(self._columns["id"].as_stored(value) if "id" in self._columns else value)
+
     def column_before(self, column_name: str) -> Union[str, bool]:
         """Returns the name of the column that comes before a given row.
 
diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 8124d74..c2327c2 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -228,22 +228,12 @@ class Table(BaseTable):
         if val1 is None or val2 is None or column_name not in self._columns:
             return False
 
-        column_type = self._columns[column_name].column_type
-        if column_type == "BINARY":
-            return self._unpadded(val1) == self._unpadded(val2)
-        if not isinstance(val1, str) or not isinstance(val2, str):
-            return False
-        if column_type == "JSON":
+        column = self._columns[column_name]
+        if self._loose_equal(column.as_stored(val1), column.as_stored(val2)):
+            return True
+        if column.column_type == "JSON" and isinstance(val1, str) and isinstance(val2, str):
             try:
                 return json.dumps(json.loads(val1), sort_keys=True) == json.dumps(json.loads(val2), sort_keys=True)
             except ValueError:
                 return False
-        if column_type == "CHAR":
-            return val1.rstrip(" ") == val2.rstrip(" ")
-        if column_type == "SET":
-            return set(val1.split(",")) == set(val2.split(","))
         return False
-
-    def _unpadded(self, value):
-        """ Returns the value without the zeros which the server adds at the end """
-        return (value if isinstance(value, bytes) else str(value).encode()).rstrip(b"\0")
-- 
2.43.0


From 7a574d39833c1f5fd83444e47ca69ff1df85f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 47/49] fix: the columns of a primary key and a column which
 counts are not null, whether or not that is declared

---
 mygrations/formats/mysql/file_reader/create_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index b22d6bd..3c26c88 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -137,6 +137,15 @@ class CreateParser(Table, Parser):
             else:
                 raise ValueError(f"Found unknown definition of type {definition.__class__}")
 
+        # the columns of a primary key are never null and neither is one which counts, and so MySQL reports them
+        for column in self._columns.values():
+            if column.auto_increment:
+                column._null = False
+        for index in self._indexes.values():
+            for column_name in index.columns if index.index_type == "PRIMARY" else []:
+                if column_name in self._columns:
+                    self._columns[column_name]._null = False
+
         if "." in self._name or "`" in self._name:
             self._global_errors.append(f"Table '{self._name}' cannot be in another database")
 
-- 
2.43.0


From e193fe04279f28bf10a497704c68f92ad7ad2d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 48/49] fix: an INSERT with a thousand rows and more is read
 like any other

---
 mygrations/core/parse/rule_children.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mygrations/core/parse/rule_children.py b/mygrations/core/parse/rule_children.py
index 2ebf7f9..efef1dc 100644
--- a/mygrations/core/parse/rule_children.py
+++ b/mygrations/core/parse/rule_children.py
@@ -52,13 +52,8 @@ class RuleChildren(RuleBase):
 
         # we need to keep looping through the children looking for matches
         # to the string until we no longer get any matches.  Then return.
-        c = 0
         while string:
 
-            c += 1
-            if c > 1000:
-                raise ValueError('Max depth reached')
-
             shortest_leftover = False
             best_match = False
             best_leftover = ''
@@ -89,6 +84,9 @@ class RuleChildren(RuleBase):
 
             # we have a match!
             if best_match:
+                # a child which matches without consuming anything would match forever
+                if len(best_leftover) >= len(string):
+                    raise ValueError('Max depth reached')
                 string = best_leftover
                 matches.append(best_match)
 
-- 
2.43.0


From 006972080f0abfd3fbdda7b25064e84e15cf7f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 49/49] fix: a foreign key whose name another one takes over
 while its column changes type is dropped first

---
 mygrations/formats/mysql/mygrations/mygration.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 2d121d7..228cd05 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -318,6 +318,16 @@ class Mygration:
         if not fks_to_cycle:
             return ([], [], set())
 
+        # The name under which a foreign key is added again may still belong to another foreign key of
+        # the live table, which then has to go first, just like the ones above.
+        for (table_name, constraint_name), (_, target_constraint, target_constraint_name) in list(fks_to_cycle.items()):
+            live_constraints = self.db_from.tables[table_name].constraints
+            if target_constraint and target_constraint_name in live_constraints:
+                fks_to_cycle.setdefault(
+                    (table_name, target_constraint_name),
+                    (live_constraints[target_constraint_name], target_constraint, target_constraint_name),
+                )
+
         drop_by_table = {}
         add_by_table = {}
         cycled_fk_names = set()
-- 
2.43.0

