From 309a24a22eef9e340eb9b9f143da4e4d45b17810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 01/30] fix: MAKE stores the right node of a pattern, not the
 left one again

---
 wiggle_query_language/clauses/make/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index a183a23..8c827bd 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -43,7 +43,7 @@ def make_nodes(make_pre: MakePre) -> list[Node]:
         nodes.append(make_node(make_pre.middle_node))
 
     if make_pre.right_node:
-        nodes.append(make_node(make_pre.left_node))
+        nodes.append(make_node(make_pre.right_node))
 
     return nodes
 
-- 
2.43.0


From b1625c51a8a20e0397210fc5b47e5a2b0b530e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 02/30] fix: adding nothing to the node relationships index no
 longer corrupts the indexes file

---
 .../graph/database/indexes/node_relationships_index.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 108a7be..c1b72b3 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -39,10 +39,9 @@ def add_items_to_node_relationships_index(
             else:
                 rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-            file_handle.seek(0)
-
         indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
 
+        file_handle.seek(0)
         dump(indexes_dict, file_handle, indent=4)
         file_handle.truncate()
 
-- 
2.43.0


From 64b80c080ca5f4999d2d8a345e41a35feb414afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 03/30] fix: a query with only MAKE statements is accepted

---
 wiggle_shell/core/query/query.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 53b93c9..2859f30 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -35,7 +35,9 @@ def parse_query_string(query_string: str) -> ParsedQuery:
     find_parsed = parse_find_statement_from_query_string(query_string)
     criteria_parsed = None
 
-    find_query_handles = find_parsed.parsed_pattern.pattern_handles
+    find_query_handles = None
+    if find_parsed:
+        find_query_handles = find_parsed.parsed_pattern.pattern_handles
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
@@ -65,7 +67,7 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
             report(
                 parsed_report=query_report, found=found, gdbms_file_path=gdbms_file_path
             )
-    else:
+    elif not query_make:
         raise Exception("You must provide a FIND with a RETURN! FUBAR")
 
     return True
-- 
2.43.0


From f3919992c0b57c3cf9ebb4755bf2ae4905e8515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 04/30] fix: FIND reads its right node from the right of the
 pattern

---
 .../clauses/find/transform/find_pre.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 6edd793..548accc 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -94,14 +94,10 @@ def process_parsed_find(
         find_pre.node_labels.add(middle_label)
 
     # Right Node
-    if parsed_pattern.middle_node:
-        right_handle = parsed_pattern.middle_node_handle
-        right_props_dict = get_property_dict(parsed_pattern.left_node_props)
+    if parsed_pattern.right_node:
+        right_handle = parsed_pattern.right_node_handle
         right_label = parsed_pattern.right_node_label
-        if parsed_criteria:
-            right_props_dict.update(
-                parsed_criteria.criteria_handle_props.get(right_handle, None)
-            )
+        right_props_dict = get_property_dict(parsed_pattern.right_node_props)
 
         right = FindNodePre(
             node_handle=right_handle,
-- 
2.43.0


From 99d56140b556673b5e35c554b7df5e2041a99d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 05/30] fix: CRITERIA properties can be added to a FIND item
 written without properties

---
 .../clauses/find/transform/find_pre.py                 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 548accc..33a5620 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -31,10 +31,16 @@ def add_criteria_yes_no_props(
 
     if criteria := criteria.criteria_handle_props.get(handle, None):
         if props_dict_yes := criteria.props_dict_yes_match:
-            find_pre_model.props_dict_yes.update(props_dict_yes)
+            find_pre_model.props_dict_yes = {
+                **(find_pre_model.props_dict_yes or {}),
+                **props_dict_yes,
+            }
         # no
         if props_dict_no := criteria.props_dict_no_match:
-            find_pre_model.props_dict_no.update(props_dict_no)
+            find_pre_model.props_dict_no = {
+                **(find_pre_model.props_dict_no or {}),
+                **props_dict_no,
+            }
 
     return find_pre_model
 
-- 
2.43.0


From dfa30b644a52991cf4b46a0e2d1f0f169c091bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 06/30] fix: FIND short circuits when the relationship names
 are absent, not when they are present

---
 .../clauses/find/short_circuits/find_short_circuits.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
index ddedb46..d01201b 100644
--- a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
+++ b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
@@ -26,7 +26,7 @@ def find_short_circuit(
     if not node_label_is_in_index(find_pre.node_labels, node_label_index):
         return False
 
-    if relationship_name_is_in_index(
+    if find_pre.relationship_names and not relationship_name_is_in_index(
         find_pre.relationship_names, relationship_name_index
     ):
         return False
-- 
2.43.0


From d38b26f7b9b9793019d03b30e58a127dd89b9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 07/30] fix: created_at is the time the record is made, not the
 time of the import

---
 models/wql/data/wiggle_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/wql/data/wiggle_metadata.py b/models/wql/data/wiggle_metadata.py
index 67e3eba..09e3498 100644
--- a/models/wql/data/wiggle_metadata.py
+++ b/models/wql/data/wiggle_metadata.py
@@ -1,10 +1,10 @@
 from datetime import datetime
 from typing import Optional
 
-from pydantic import BaseModel
+from pydantic import BaseModel, Field
 
 
 class WiggleGraphMetalData(BaseModel):
     wn: int
-    created_at: float = datetime.now().timestamp()
+    created_at: float = Field(default_factory=lambda: datetime.now().timestamp())
     updated_at: Optional[float] = None
-- 
2.43.0


From c413d789d58ca722ee93e15b018124ed6d705ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 08/30] fix: a statement starts at its keyword and ends at its
 semicolon, on any line and in any case

---
 .../clauses/parsing_helpers/extract_statements.py         | 8 ++++----
 .../clauses/regexes/patterns/clause_helpers.py            | 7 +++++--
 .../clauses/regexes/report/report_patterns.py             | 5 +++--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 25c9e0b..0e62472 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -32,9 +32,9 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group() for x in clause_all_regex.finditer(query_string)]:
-        return make_matches
+    make_matches = [x.group(1) for x in clause_all_regex.finditer(query_string)]
 
-    check_clause_spelling(query_string, clause)
+    # Whatever is not a statement of this clause may be a misspelled one
+    check_clause_spelling(clause_all_regex.sub("", query_string), clause)
 
-    return None
+    return make_matches or None
diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9a993e7..5800d99 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -1,5 +1,8 @@
 from itertools import permutations
 
+# A statement starts at the start of the query or after the end of another one.
+STATEMENT_START = r"(?:^|(?<=;))\s*"
+
 
 def get_clause_all_regex(clause: str) -> str:
     """
@@ -7,7 +10,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+\);)"
+    return rf"{STATEMENT_START}(?P<clause_stmt_all>(?i:({clause}))\b[^;]*;)"
 
 
 def get_clause_permutations(clause: str) -> str:
@@ -29,7 +32,7 @@ def get_clause_permutations_regex(clause: str) -> str:
     all_permutations_joined = get_clause_permutations(clause)
 
     clause_permutations_regex = (
-        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s?\("
+        rf"{STATEMENT_START}(?P<clause_syntax_error>{all_permutations_joined})\s*\("
     )
 
     return clause_permutations_regex
diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 97018fd..0c1786c 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -1,6 +1,7 @@
 from re import compile, IGNORECASE
 
 from wiggle_query_language.clauses.regexes.patterns.clause_helpers import (
+    STATEMENT_START,
     get_clause_permutations,
 )
 
@@ -8,12 +9,12 @@ CLAUSE = "REPORT"
 
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+;)",
+    pattern=rf"{STATEMENT_START}(?P<report_stmt_all>(?i:({CLAUSE}))\b[^;]*;)",
     flags=IGNORECASE,
 )
 
 # TROPER foo;
 REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
+    pattern=rf"{STATEMENT_START}(?P<report_stmt_all>({get_clause_permutations(CLAUSE)})\b)",
     flags=IGNORECASE,
 )
-- 
2.43.0


From 1853281e309fe9d3c94eb13ba4372d6603a16754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 09/30] fix: whitespace after an arrow does not reverse the
 relationship

---
 .../clauses/transform_helpers/relationships.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/transform_helpers/relationships.py b/wiggle_query_language/clauses/transform_helpers/relationships.py
index 7c7416b..1d0be5c 100644
--- a/wiggle_query_language/clauses/transform_helpers/relationships.py
+++ b/wiggle_query_language/clauses/transform_helpers/relationships.py
@@ -12,4 +12,4 @@ def relationship_is_left_to_right(parsed_relationship_pattern: str) -> bool:
             f"Non directed relationship found: {parsed_relationship_pattern}"
         )
 
-    return True if parsed_relationship_pattern[-1] == ">" else False
+    return parsed_relationship_pattern.strip().endswith(">")
-- 
2.43.0


From 95848103743be9fac2299eda409028b963a2ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 10/30] fix: the relationships of every statement are checked,
 also after one without any

---
 .../clauses/parsing_helpers/parse_statement_checks.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 45930ec..3d81f39 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -114,7 +114,7 @@ def check_relationships(stmt_matches: list[str]) -> bool:
 
     for stmt in stmt_matches:
         if not (rels_matches := RELATIONSHIP_DIR_CHECK_REGEX.findall(stmt)):
-            return True
+            continue
         for rel in rels_matches:
             rel_pattern: str = rel[0]
             rel_name: str = rel[1]
-- 
2.43.0


From de2d4cf1cb8a3cf38ce70534064fa1f5369592b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 11/30] fix: the text of a quoted property is stored as written

---
 .../clauses/parsing_helpers/parse_properties.py | 17 +++++++++++++++--
 .../parsing_helpers/parse_statement_checks.py   |  5 ++++-
 .../clauses/regexes/patterns/properties.py      | 14 +++++++++++---
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9487cde..6c2f7e5 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -6,6 +6,7 @@ from wiggle_graph_logger.graph_logger import graph_logger
 from models.wql import WG_ALLOWED_TYPES, PropertyType, WiggleGraphPropertyPre
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     ALL_PROPERTIES_KEY_VALUE_REGEX,
+    QUOTED_STRING_REGEX,
 )
 
 
@@ -60,7 +61,7 @@ def handle_extracted_property(
     """
     extracted_property = make_property.yield_extracted_property()
 
-    striped_value = extracted_property.property_value.strip('"').strip("'").strip()
+    striped_value = extracted_property.property_value.strip()
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
@@ -74,11 +75,23 @@ def handle_extracted_property(
         case PropertyType.LIST_TYPE:
             return handle_list_property(striped_value)
         case PropertyType.STRING_TYPE:
-            return handle_string_property(striped_value)
+            return handle_string_property(unquote(striped_value))
         case _:
             raise Exception()
 
 
+def unquote(value: str) -> str:
+    """
+    Removes the pair of quotes around a string, what is between them is kept as is.
+    :param value: The extracted property value.
+    :return: The text of the string.
+    """
+    if QUOTED_STRING_REGEX.fullmatch(value):
+        return value[1:-1]
+
+    return value
+
+
 def handle_null_property(value: str) -> None:
     """
     Handles the parsing for WiggleGraph null values.
diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 3d81f39..5225ee1 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -18,6 +18,7 @@ from wiggle_query_language.clauses.regexes.make.make_patterns import (
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     CHECK_PROPERTIES_SYNTAX_REGEX,
     PROPERTIES_LIST_VALUE_REGEX,
+    QUOTED_STRING_REGEX,
 )
 from wiggle_query_language.clauses.regexes.report.report_patterns import (
     REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX,
@@ -82,8 +83,10 @@ def check_node_rel_properties(stmt_matches: list[str]) -> True:
             continue
 
         for param_match_in in param_string:
+            # the text of a string can not break the syntax
+            param_match = QUOTED_STRING_REGEX.sub(" 0 ", param_match_in)
             param_match = (
-                param_match_in.replace("true", "True")
+                param_match.replace("true", "True")
                 .replace("false", "False")
                 .replace("null", "None")
             )
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 4ad1774..b1cc2ad 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -2,12 +2,20 @@ from re import IGNORECASE, compile
 
 from wiggle_query_language.clauses.regexes import EXTRA_ALLOWED_CHARS
 
+# 'foo', "it's"
+QUOTED_STRING = r"'[^']*'|\"[^\"]*\""
+QUOTED_STRING_REGEX = compile(pattern=QUOTED_STRING)
+
+# A value ends before a comma, the closing curly brace or the end of the properties
+VALUE_END = r"(?=\s*(?:[,}]|$))"
+
 # int: 1, float: 3.14, bool: true, none: null, str: '2', str2:"2_4", str3: "3 4 5", email: 'foo@bar.net',  list: [...]
 ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
-        r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
-        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
-        r"(?P<string_type>[\w+\'\"@\.\s]+))"
+        r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?:(?P<none_type>null)|(?P<bool_type>true|false)|"
+        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|"
+        rf"(?P<list_type>\[(?:{QUOTED_STRING}|[\w,\s\.@\+])*\])|"
+        rf"(?P<string_type>{QUOTED_STRING}|[\w+@\.][\w+\'\"@\.\s]*)){VALUE_END})"
     ),
     flags=IGNORECASE,
 )
-- 
2.43.0


From 484512adefc9c814ed06f03f1ae816bd7138e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 12/30] fix: list elements are stored as written or refused
 before anything is stored

---
 .../parsing_helpers/parse_properties.py       | 29 +++++++++++++++----
 .../parsing_helpers/parse_statement_checks.py |  4 +--
 .../clauses/regexes/patterns/properties.py    |  5 ++++
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 6c2f7e5..9256c18 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from re import Match
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -6,9 +7,12 @@ from wiggle_graph_logger.graph_logger import graph_logger
 from models.wql import WG_ALLOWED_TYPES, PropertyType, WiggleGraphPropertyPre
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     ALL_PROPERTIES_KEY_VALUE_REGEX,
+    LIST_ITEM_REGEX,
     QUOTED_STRING_REGEX,
 )
 
+LIST_ITEM_TYPES = {int, float, bool, str, type(None)}
+
 
 def get_property_dict(properties_string: str) -> Optional[dict]:
     """
@@ -172,6 +176,18 @@ def handle_int_property(value: str) -> int:
         )
 
 
+def list_item_to_python(list_item: Match) -> str:
+    """
+    Rewrites a string, boolean or null of a list as Python would write it.
+    :param list_item: The match for the item.
+    :return: The Python literal.
+    """
+    if list_item.lastgroup == "keyword":
+        return {"true": "True", "false": "False", "null": "None"}[list_item.group()]
+
+    return f" {unquote(list_item.group())!r} "
+
+
 def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     """
     Handles the parsing for WiggleGraph list values
@@ -179,15 +195,16 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :return: A Python list.
     """
     # params validation happens in check_node_rel_properties
-    value = (
-        value_in.replace("true", "True")
-        .replace("false", "False")
-        .replace("null", "None")
-    )
+    value = LIST_ITEM_REGEX.sub(list_item_to_python, value_in)
     try:
         found_list = literal_eval(value)
-    except SyntaxError:
+    except (SyntaxError, ValueError):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
+    for item in found_list:
+        if type(item) not in LIST_ITEM_TYPES:
+            raise WiggleGraphIllegalPropertyValue(
+                f"{value_in} can only hold integers, floats, booleans, nulls and strings"
+            )
     graph_logger.debug(f"{value_in} was determined to be a list: {found_list}")
     return found_list
 
diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 5225ee1..b45a494 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -100,9 +100,9 @@ def check_node_rel_properties(stmt_matches: list[str]) -> True:
                 for params_list in params_lists:
                     try:
                         literal_eval(params_list)
-                    except SyntaxError:
+                    except (SyntaxError, ValueError):
                         raise ParamSyntaxError(
-                            message=f"SyntaxError: {params_lists} missing a comma?"
+                            message=f"SyntaxError: {param_match_in} missing a comma?"
                         )
 
     return True
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index b1cc2ad..917e050 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -6,6 +6,11 @@ from wiggle_query_language.clauses.regexes import EXTRA_ALLOWED_CHARS
 QUOTED_STRING = r"'[^']*'|\"[^\"]*\""
 QUOTED_STRING_REGEX = compile(pattern=QUOTED_STRING)
 
+# 'foo', true
+LIST_ITEM_REGEX = compile(
+    pattern=rf"(?P<quoted>{QUOTED_STRING})|(?P<keyword>\b(?:true|false|null)\b)"
+)
+
 # A value ends before a comma, the closing curly brace or the end of the properties
 VALUE_END = r"(?=\s*(?:[,}]|$))"
 
-- 
2.43.0


From c3937d6642dab35475a1b27ee9dfe86529403d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 13/30] fix: a property that can not be stored or is given
 twice is refused, not dropped

---
 .../clauses/parsing_helpers/parse_properties.py           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9256c18..34b425f 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -52,6 +52,14 @@ def parse_properties(properties_string: str) -> dict:
                 make_primitive_property.property_name
             ] = value_parsed
 
+    # Everything between the curly brackets must be one of the properties found
+    leftover = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string)
+    separators = "," * (len(primitive_property_dictionary) - 1)
+    if "".join(leftover.split()) != f"{{{separators}}}":
+        raise WiggleGraphIllegalPropertyValue(
+            f"Error for setting property in {properties_string} please check the values and that the names are unique"
+        )
+
     return primitive_property_dictionary
 
 
-- 
2.43.0


From b84b79d4d1dcbc1e9040b5bfccbf3a598b87650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 14/30] fix: empty properties may hold whitespace

---
 .../clauses/parsing_helpers/parse_statement_checks.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index b45a494..6b6b44d 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -63,6 +63,9 @@ def check_property_syntax(params_string: str) -> bool:
     :return: True or raises and exception.
     """
 
+    if not params_string.strip("{}").strip():
+        return True
+
     exp_param_count = params_string.count(",") + 1
     colon_count = params_string.count(":")
     if exp_param_count != colon_count:
-- 
2.43.0


From 1220af9930c598a32a927996841d8f50d4647b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 15/30] fix: a float too large to store is refused, not stored
 as infinity

---
 .../clauses/parsing_helpers/parse_properties.py              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 34b425f..28c601f 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from math import inf, isinf
 from re import Match
 from typing import Optional
 
@@ -155,6 +156,8 @@ def handle_float_property(value: str) -> float:
         )
     try:
         found_float = float(value)
+        if isinf(found_float):
+            raise ValueError
         graph_logger.debug(f"{value} was determined to be a float: {found_float}")
         return found_float
     except (TypeError, ValueError):
@@ -209,7 +212,7 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     except (SyntaxError, ValueError):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
     for item in found_list:
-        if type(item) not in LIST_ITEM_TYPES:
+        if type(item) not in LIST_ITEM_TYPES or item in (inf, -inf):
             raise WiggleGraphIllegalPropertyValue(
                 f"{value_in} can only hold integers, floats, booleans, nulls and strings"
             )
-- 
2.43.0


From 0ae844db199b7d21e7576b5cc91073437110191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 16/30] fix: text of a MAKE or FIND that is not part of a
 pattern is refused, not dropped

---
 .../find/parse_find/parse_find_statement.py   | 13 +++---
 .../make/parse_make/parse_make_statement.py   | 13 +++---
 .../parsing_helpers/extract_patterns.py       | 40 +++++++++++++++++++
 3 files changed, 50 insertions(+), 16 deletions(-)
 create mode 100644 wiggle_query_language/clauses/parsing_helpers/extract_patterns.py

diff --git a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
index b9ee7c6..994a0cd 100644
--- a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
+++ b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
@@ -1,16 +1,16 @@
 from typing import Optional
 
 from exceptions.wql.clauses import MultipleClauseStatementsError
-from models.wql import Clause, ParsedFind, ParsedPattern
+from models.wql import Clause, ParsedFind
+from wiggle_query_language.clauses.parsing_helpers.extract_patterns import (
+    extract_patterns,
+)
 from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
     validate_statement,
 )
-from wiggle_query_language.clauses.regexes.patterns.patterns import (
-    NODES_RELS_PATTERN_REGEX,
-)
 
 
 def build_parsed_find(statement: str) -> ParsedFind:
@@ -19,10 +19,7 @@ def build_parsed_find(statement: str) -> ParsedFind:
     :param statement: The raw FIND statement.
     :return: A ParsedFind Object.
     """
-    parsed_pattern_dict = [
-        x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
-    ]
-    parsed_pattern = ParsedPattern(**parsed_pattern_dict[0])
+    parsed_pattern = extract_patterns(statement, Clause.FIND)[0]
 
     parsed_find = ParsedFind(
         raw_statement=statement,
diff --git a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
index 4f2bd0d..12d85cf 100644
--- a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
+++ b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
@@ -1,15 +1,15 @@
 from typing import Optional
 
 from models.wql import Clause, ParsedMake
+from wiggle_query_language.clauses.parsing_helpers.extract_patterns import (
+    extract_patterns,
+)
 from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
     validate_statement,
 )
-from wiggle_query_language.clauses.regexes.patterns.patterns import (
-    NODES_RELS_PATTERN_REGEX,
-)
 
 
 def build_parsed_make(statement: str) -> ParsedMake:
@@ -18,12 +18,9 @@ def build_parsed_make(statement: str) -> ParsedMake:
     :param statement: The raw make statement.
     :return: A ParsedMake Object.
     """
-    parsed_pattern_dict = [
-        x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
-    ]
-
     parsed_make = ParsedMake(
-        raw_statement=statement, parsed_pattern_list=parsed_pattern_dict
+        raw_statement=statement,
+        parsed_pattern_list=extract_patterns(statement, Clause.MAKE),
     )
 
     return parsed_make
diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_patterns.py b/wiggle_query_language/clauses/parsing_helpers/extract_patterns.py
new file mode 100644
index 0000000..6aad072
--- /dev/null
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_patterns.py
@@ -0,0 +1,40 @@
+from exceptions.wql.parsing import ClauseSyntaxError
+from models.wql import Clause, ParsedPattern
+from wiggle_query_language.clauses.regexes.patterns.patterns import (
+    NODES_RELS_PATTERN_REGEX,
+)
+
+
+def extract_patterns(statement: str, clause: Clause) -> list[ParsedPattern]:
+    """
+    Extracts the patterns of a MAKE/FIND statement.
+    :param statement: The raw statement.
+    :param clause: The WQL clause.
+    :return: The patterns, or raises an exception if some of the statement is not part of one.
+    """
+    leftover = NODES_RELS_PATTERN_REGEX.sub("", statement)
+    if "".join(leftover.upper().split()).replace(",", "") != f"{clause.value};":
+        raise ClauseSyntaxError(
+            message=f"SyntaxError: {leftover} of ---> {statement} <--- is not part of a pattern"
+        )
+
+    patterns = [
+        ParsedPattern(**x.groupdict())
+        for x in NODES_RELS_PATTERN_REGEX.finditer(statement)
+        if x.group()
+    ]
+    if not patterns:
+        raise ClauseSyntaxError(message=f"SyntaxError: {statement} has no pattern")
+
+    for pattern in patterns:
+        left, middle, right = pattern.left_node, pattern.middle_node, pattern.right_node
+        if (
+            not left
+            or (pattern.left_middle_rel and not middle)
+            or (pattern.middle_right_rel and not (middle and right))
+        ):
+            raise ClauseSyntaxError(
+                message=f"SyntaxError: a relationship of ---> {statement} <--- does not join two nodes, at most three nodes can be joined"
+            )
+
+    return patterns
-- 
2.43.0


From 02dd44a51a6ebbfaca633a8a0f5e04b9b7c3052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 17/30] fix: a DBMS name can not reach outside the DBMS folder

---
 .../core/select_gdbms/gdbms_folder.py         | 23 +++++++++++++++++++
 .../core/select_gdbms/select_database_file.py |  3 ++-
 .../core/select_gdbms/select_gdbms.py         |  3 ++-
 .../core/select_gdbms/select_index_file.py    |  3 ++-
 .../select_gdbms/select_wiggle_number_file.py |  3 ++-
 5 files changed, 31 insertions(+), 4 deletions(-)
 create mode 100644 wiggle_shell/core/select_gdbms/gdbms_folder.py

diff --git a/wiggle_shell/core/select_gdbms/gdbms_folder.py b/wiggle_shell/core/select_gdbms/gdbms_folder.py
new file mode 100644
index 0000000..68e4d96
--- /dev/null
+++ b/wiggle_shell/core/select_gdbms/gdbms_folder.py
@@ -0,0 +1,23 @@
+import os
+from pathlib import Path
+
+MAX_FILE_NAME_BYTES = 255
+
+
+def get_gdbms_folder_path(gdbms_name: str, path_to_dbms_dir: Path) -> Path:
+    """
+    Gets the path to the folder of a DBMS, which is always directly inside the DBMS folder.
+    :param gdbms_name: The name of the DBMS.
+    :param path_to_dbms_dir: The directory of the DBMS folder.
+    :return: The path to the folder, or raises a ValueError if it is not the name of a folder.
+    """
+    separators = {os.sep, os.altsep, "\0"} - {None}
+
+    if gdbms_name in {"", os.curdir, os.pardir} or separators.intersection(gdbms_name):
+        raise ValueError(f"{gdbms_name!r} can not be the name of a DBMS")
+
+    # The longest of the file names
+    if len(os.fsencode(f"wiggle_number_{gdbms_name}.txt")) > MAX_FILE_NAME_BYTES:
+        raise ValueError(f"{gdbms_name!r} is too long to be the name of a DBMS")
+
+    return path_to_dbms_dir.joinpath(gdbms_name)
diff --git a/wiggle_shell/core/select_gdbms/select_database_file.py b/wiggle_shell/core/select_gdbms/select_database_file.py
index 5b868b1..c506791 100644
--- a/wiggle_shell/core/select_gdbms/select_database_file.py
+++ b/wiggle_shell/core/select_gdbms/select_database_file.py
@@ -2,6 +2,7 @@ from json import dumps
 from pathlib import Path
 
 from wiggle_shell import DBMS_FOLDER
+from wiggle_shell.core.select_gdbms.gdbms_folder import get_gdbms_folder_path
 
 
 def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> Path:
@@ -12,7 +13,7 @@ def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -
     :return : The path to the new database file.
     """
 
-    path_to_dbms_dir.joinpath(f"{gdbms_name}").mkdir(parents=True, exist_ok=True)
+    get_gdbms_folder_path(gdbms_name, path_to_dbms_dir).mkdir(parents=True, exist_ok=True)
     new_database_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/database_{gdbms_name}.json"
     )
diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c4d0e89..418ba2a 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -6,6 +6,7 @@ from typing import Optional
 
 from models.wigish import GDBMSFilePath
 from wiggle_shell import DBMS_FOLDER, INPUT_PROMPT_SPACING
+from wiggle_shell.core.select_gdbms.gdbms_folder import get_gdbms_folder_path
 from wiggle_shell.core.select_gdbms.select_database_file import (
     create_new_database,
     get_existing_db_file_path,
@@ -167,7 +168,7 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     :return: An integer.
     """
 
-    db_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/")
+    db_path = get_gdbms_folder_path(gdbms_name, path_to_dbms_dir)
 
     if not db_path.is_dir():
         raise Exception()
diff --git a/wiggle_shell/core/select_gdbms/select_index_file.py b/wiggle_shell/core/select_gdbms/select_index_file.py
index 462e898..206fd79 100644
--- a/wiggle_shell/core/select_gdbms/select_index_file.py
+++ b/wiggle_shell/core/select_gdbms/select_index_file.py
@@ -2,6 +2,7 @@ from json import dumps
 from pathlib import Path
 
 from wiggle_shell import DBMS_FOLDER
+from wiggle_shell.core.select_gdbms.gdbms_folder import get_gdbms_folder_path
 
 
 def create_new_indexes_file(
@@ -14,7 +15,7 @@ def create_new_indexes_file(
     :return : The path to the new database file.
     """
 
-    path_to_dbms_dir.joinpath(f"{gdbms_name}").mkdir(parents=True, exist_ok=True)
+    get_gdbms_folder_path(gdbms_name, path_to_dbms_dir).mkdir(parents=True, exist_ok=True)
     new_indexes_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/indexes_{gdbms_name}.json"
     )
diff --git a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
index 2dc51eb..bc9cf6b 100644
--- a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
+++ b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from project_root import get_project_root
+from wiggle_shell.core.select_gdbms.gdbms_folder import get_gdbms_folder_path
 
 DBMS_FOLDER = Path(f"{get_project_root()}/dbms/")
 INPUT_PROMPT_SPACING = " " * 5
@@ -15,7 +16,7 @@ def create_new_wiggle_number_file(
     :param path_to_dbms_dir The directory of the DBMS folder.
     :return The path to the new Wiggle number file.
     """
-    path_to_dbms_dir.joinpath(f"{dbms_name}").mkdir(parents=True, exist_ok=True)
+    get_gdbms_folder_path(dbms_name, path_to_dbms_dir).mkdir(parents=True, exist_ok=True)
     new_wn_state_file_path = path_to_dbms_dir.joinpath(
         f"{dbms_name}/wiggle_number_{dbms_name}.txt"
     )
-- 
2.43.0


From 15536b00df2e373b38e1fb4054aff5c99c79fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 18/30] fix: deleting a DBMS removes its own files only,
 whatever characters its name has

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 418ba2a..705f2b2 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,5 +1,4 @@
 import os
-from glob import glob
 from pathlib import Path
 from string import ascii_uppercase
 from typing import Optional
@@ -173,10 +172,8 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     if not db_path.is_dir():
         raise Exception()
 
-    files = glob(f"{db_path}/*")
-    if files:
-        for file in files:
-            os.remove(file)
+    for file in db_path.iterdir():
+        os.remove(file)
 
     db_path.rmdir()
 
-- 
2.43.0


From 2d7679dfb759074a759b956d521a55440804179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 19/30] fix: the DBMSs to choose from are those of the folder
 asked for

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 705f2b2..b2eb750 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -117,7 +117,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
     """
     # todo test for this and break up
     while True:
-        choices = get_and_display_available_dbms()
+        choices = get_and_display_available_dbms(path_to_dbms_dir=path_to_gdbms_dir)
 
         if not choices:
             print("There are no databases, please create a new database.")
-- 
2.43.0


From 3871d834003e75fcbdf5faa0817073f3f72d5b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 20/30] fix: listing the DBMSs before the first one is created
 gives none

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index b2eb750..59286d1 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -32,6 +32,9 @@ def list_existing_dbms(
 
     if not skips:
         skips = set()
+    if not path_to_dbms_dir.is_dir():
+        return []
+
     existing_databases = [
         x.name for x in path_to_dbms_dir.iterdir() if x.is_dir() and x.name not in skips
     ]
-- 
2.43.0


From 85f2bb64402b2f664cf964531b831b5e2776eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 21/30] fix: REPORT may use any of the FIND handles and no
 others

---
 .../parse_report/parse_report_statement.py    | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
index d171f6d..64e6cc8 100644
--- a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
+++ b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
@@ -1,6 +1,8 @@
+from re import IGNORECASE, compile, split
 from typing import Optional
 
 from exceptions.wql.clauses import MultipleClauseStatementsError
+from exceptions.wql.parsing import ClauseSyntaxError
 from exceptions.wql.report import FindReportHandleMissmatch
 from models.wql import ParsedReport, Clause
 from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
@@ -8,13 +10,31 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
 )
 
 
+# *, foo, foo.bar, wn(foo)
+REPORT_ITEM_REGEX = compile(
+    pattern=r"\*|(?P<handle>\w+)\s*(?:\.\s*\w+)?|wn\s*\(\s*(?P<wn_handle>\w+)\s*\)",
+    flags=IGNORECASE,
+)
+
+
 def check_find_report_handles(find_handles: set[str], extracted_report: str) -> True:
-    if find_handles:
-        for find_handle in find_handles:
-            if find_handle not in extracted_report:
-                raise FindReportHandleMissmatch(
-                    f"FIND handle {find_handle} was not found not in the ---> {extracted_report} <---"
-                )
+    if find_handles is None:
+        return True
+
+    _, *report_items = split(
+        r"(?i)^REPORT\b|,", extracted_report.strip().removesuffix(";")
+    )
+    for report_item in report_items:
+        item = REPORT_ITEM_REGEX.fullmatch(report_item.strip())
+        if not item:
+            raise ClauseSyntaxError(
+                f"SyntaxError: {report_item} of ---> {extracted_report} <--- can not be reported"
+            )
+        handle = item.group("handle") or item.group("wn_handle")
+        if handle and handle not in find_handles:
+            raise FindReportHandleMissmatch(
+                f"REPORT handle {handle} of ---> {extracted_report} <--- was not found in the FIND"
+            )
 
     return True
 
-- 
2.43.0


From df8b163ec0d4291acddd5d67fdb432caae9ae3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 22/30] fix: a FIND that can not be processed is refused before
 the MAKE of the same query is stored

---
 wiggle_shell/core/query/query.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 2859f30..d5ff6e3 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -10,6 +10,7 @@ from wiggle_query_language.clauses.find import (
     find,
     parse_find_statement_from_query_string,
 )
+from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
 from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
@@ -53,6 +54,13 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 
 
 def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) -> bool:
+    if parsed_query.find_parsed:
+        # A FIND that can not be processed must be refused before anything is made
+        process_parsed_find(
+            parsed_find=parsed_query.find_parsed,
+            parsed_criteria=parsed_query.criteria_parsed,
+        )
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
-- 
2.43.0


From cf2777a2f7edc4bc8fe46d2075bcbcfea6361dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 23/30] fix: a query that holds the word help is run, not taken
 for a call for help

---
 wiggle_shell/wiggleshell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/wiggleshell.py b/wiggle_shell/wiggleshell.py
index 0a149d6..83dcc58 100644
--- a/wiggle_shell/wiggleshell.py
+++ b/wiggle_shell/wiggleshell.py
@@ -31,7 +31,7 @@ def start_wiggle_shell() -> None:
             print("Good Bye!")
             break
 
-        if "help" in query_string.lower():
+        if query_string.strip().lower() == "help":
             print("A helpful guide is on the way!\n")
             continue
 
-- 
2.43.0


From 896110ca765565236e4176b8d686bfc0106832a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 24/30] fix: an interrupted MAKE leaves every file readable and
 the old or the new graph

---
 wiggle_query_language/clauses/make/make.py    | 19 +++++-----
 wiggle_query_language/graph/atomic_write.py   | 27 ++++++++++++++
 .../graph/database/database.py                | 34 +++++++++---------
 .../graph/database/indexes/index_helpers.py   | 24 ++++++-------
 .../indexes/node_relationships_index.py       | 36 +++++++++----------
 .../graph/state/wiggle_number.py              |  4 +--
 6 files changed, 84 insertions(+), 60 deletions(-)
 create mode 100644 wiggle_query_language/graph/atomic_write.py

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index 8c827bd..87c9404 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -171,11 +171,14 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
     nodes_list = [make_nodes(emit_nodes) for emit_nodes in emit_nodes_list]
     nodes_list_flat = [item for sublist in nodes_list for item in sublist]
 
-    # Commit if only not errors
-    add_nodes_to_graph(
-        nodes_list=nodes_list_flat,
-        gdbms_file_path=gdbms_file_path,
+    # An interruption must not leave a stored Node that is not indexed or whose WN is
+    # given out again, so the database is the last to be written.
+    # Update WiggleNumber if no errors
+    update_wiggle_number(
+        new_wiggle_number=current_wiggle_number,
+        file_path=gdbms_file_path.wiggle_number_file_path,
     )
+
     # Add Indexes
     add_indexes(
         nodes_list=nodes_list_flat,
@@ -183,10 +186,10 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
         gdbms_file_path=gdbms_file_path,
     )
 
-    # Update WiggleNumber if no errors
-    update_wiggle_number(
-        new_wiggle_number=current_wiggle_number,
-        file_path=gdbms_file_path.wiggle_number_file_path,
+    # Commit if only not errors
+    add_nodes_to_graph(
+        nodes_list=nodes_list_flat,
+        gdbms_file_path=gdbms_file_path,
     )
 
     return True
diff --git a/wiggle_query_language/graph/atomic_write.py b/wiggle_query_language/graph/atomic_write.py
new file mode 100644
index 0000000..45148c7
--- /dev/null
+++ b/wiggle_query_language/graph/atomic_write.py
@@ -0,0 +1,27 @@
+import os
+from pathlib import Path
+from shutil import copymode
+
+
+def write_file_atomically(file_path: Path, contents: str) -> bool:
+    """
+    Replaces the contents of a file, whatever happens it holds the old or the new contents.
+    :param file_path: The path to the file.
+    :param contents: The new contents.
+    :return: A bool.
+    """
+    file_path = Path(os.path.realpath(file_path))
+    temporary_file_path = file_path.with_name(".write.tmp")
+    try:
+        with open(temporary_file_path, "w") as file_handle:
+            file_handle.write(contents)
+            file_handle.flush()
+            os.fsync(file_handle.fileno())
+        if file_path.exists():
+            copymode(file_path, temporary_file_path)
+        os.replace(temporary_file_path, file_path)
+    except BaseException:
+        temporary_file_path.unlink(missing_ok=True)
+        raise
+
+    return True
diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index 4ffe09b..35cb550 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -1,10 +1,11 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Any
 
 from exceptions.wql.database import NodeExistsError
 from wiggle_graph_logger.graph_logger import graph_logger
+from wiggle_query_language.graph.atomic_write import write_file_atomically
 from testing import DATABASE_TEST_FILE_PATH
 
 DATABASE_SHAPE = dict[str, dict[str, Any]]
@@ -38,19 +39,19 @@ def add_item_to_database(
     :return: A bool.
     """
 
-    with open(database_file_path, "r+") as file_handle:
+    with open(database_file_path, "r") as file_handle:
         database = load(file_handle)
-        graph_logger.info("writing to db")
-        for wiggle_number_to_add, node in items_to_add.items():
-            if wiggle_number_to_add in database:
-                raise NodeExistsError(
-                    message=f"Node {wiggle_number_to_add} already exists did you mean to update"
-                )
-            else:
-                database[wiggle_number_to_add] = node
-
-        file_handle.seek(0)
-        dump(database, file_handle, indent=4)
+
+    graph_logger.info("writing to db")
+    for wiggle_number_to_add, node in items_to_add.items():
+        if wiggle_number_to_add in database:
+            raise NodeExistsError(
+                message=f"Node {wiggle_number_to_add} already exists did you mean to update"
+            )
+        else:
+            database[wiggle_number_to_add] = node
+
+    write_file_atomically(database_file_path, dumps(database, indent=4))
 
     graph_logger.info(
         f"Successfully added {len(items_to_add)} records to the database."
@@ -68,11 +69,8 @@ def wipe_database(database_file_path: Path, im_sure: bool = False) -> bool:
     """
     if im_sure:
         graph_logger.info("Dropping database")
-        with open(database_file_path, "w") as file_handle:
-            database = dict()
-            file_handle.seek(0)
-            dump(database, file_handle, indent=4)
-            file_handle.truncate()
+        database = dict()
+        write_file_atomically(database_file_path, dumps(database, indent=4))
 
         graph_logger.info("Database successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/index_helpers.py b/wiggle_query_language/graph/database/indexes/index_helpers.py
index d24b988..b29df58 100644
--- a/wiggle_query_language/graph/database/indexes/index_helpers.py
+++ b/wiggle_query_language/graph/database/indexes/index_helpers.py
@@ -1,8 +1,9 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
+from wiggle_query_language.graph.atomic_write import write_file_atomically
 
 
 def add_items_set_to_index_by_name(
@@ -15,14 +16,13 @@ def add_items_set_to_index_by_name(
     :param index_name: The name of the index.
     :return: A bool.
     """
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
-        node_label_indexes = set(indexes_dict[index_name])
-        updated_index = node_label_indexes.union(items_to_add)
-        file_handle.seek(0)
-        indexes_dict[index_name] = list(updated_index)
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+
+    node_label_indexes = set(indexes_dict[index_name])
+    updated_index = node_label_indexes.union(items_to_add)
+    indexes_dict[index_name] = list(updated_index)
+    write_file_atomically(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -62,12 +62,10 @@ def wipe_index_set_by_name(
     """
     if im_sure:
         graph_logger.info(f"Dropping {index_name} indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
-            indexes_dict[index_name] = []
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+        indexes_dict[index_name] = []
+        write_file_atomically(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info(f"{index_name} successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index c1b72b3..60613e7 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -1,9 +1,10 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Optional
 
 from wiggle_graph_logger.graph_logger import graph_logger
+from wiggle_query_language.graph.atomic_write import write_file_atomically
 from wiggle_query_language.graph.database.indexes import NODE_RELATIONSHIPS_INDEX_NAME
 
 
@@ -27,23 +28,22 @@ def add_items_to_node_relationships_index(
     :return: A bool.
     """
 
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
-        rel_indexes_dict = indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME]
 
-        for node_wn, new_rels_wn_set in items_to_add.items():
-            if node_wn in rel_indexes_dict:
-                existing_rels = set(rel_indexes_dict[node_wn])
-                new_set = existing_rels.union(new_rels_wn_set)
-                rel_indexes_dict[node_wn] = list(new_set)
-            else:
-                rel_indexes_dict[node_wn] = list(new_rels_wn_set)
+    rel_indexes_dict = indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME]
 
-        indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
+    for node_wn, new_rels_wn_set in items_to_add.items():
+        if node_wn in rel_indexes_dict:
+            existing_rels = set(rel_indexes_dict[node_wn])
+            new_set = existing_rels.union(new_rels_wn_set)
+            rel_indexes_dict[node_wn] = list(new_set)
+        else:
+            rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-        file_handle.seek(0)
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+    indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
+
+    write_file_atomically(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -85,12 +85,10 @@ def wipe_node_relationships_index(
     """
     if im_sure:
         graph_logger.info("Dropping relationship indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
-            indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+        indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
+        write_file_atomically(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info("Relationship indexes successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/state/wiggle_number.py b/wiggle_query_language/graph/state/wiggle_number.py
index 5a99305..9a1508d 100644
--- a/wiggle_query_language/graph/state/wiggle_number.py
+++ b/wiggle_query_language/graph/state/wiggle_number.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
+from wiggle_query_language.graph.atomic_write import write_file_atomically
 from testing import WIGGLE_NUMBER_TEST_FILE_PATH
 
 
@@ -35,8 +36,7 @@ def update_wiggle_number(file_path: Path, new_wiggle_number: int) -> int:
     """
 
     graph_logger.debug("Updating state for WiggleNumber")
-    with open(file_path, "w") as file_handle:
-        file_handle.write(str(new_wiggle_number))
+    write_file_atomically(file_path, str(new_wiggle_number))
     graph_logger.debug("Successfully updated state for WiggleNumber")
     return new_wiggle_number
 
-- 
2.43.0


From 2b05ec5a75a9213c47a0581336b6f975880296a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 25/30] fix: two strings of a list without a comma between them
 are not joined into one

---
 .../clauses/parsing_helpers/parse_properties.py                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 28c601f..f478648 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -196,7 +196,8 @@ def list_item_to_python(list_item: Match) -> str:
     if list_item.lastgroup == "keyword":
         return {"true": "True", "false": "False", "null": "None"}[list_item.group()]
 
-    return f" {unquote(list_item.group())!r} "
+    # The brackets keep two strings without a comma between them apart
+    return f" ({unquote(list_item.group())!r}) "
 
 
 def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
-- 
2.43.0


From 5c4981a7b0d1ad8e2c7c0c96db8aff9f3f92d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 26/30] fix: a MAKE that does not end or is misspelled is
 refused, whatever is between it and its pattern

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 5800d99..645606e 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -32,7 +32,7 @@ def get_clause_permutations_regex(clause: str) -> str:
     all_permutations_joined = get_clause_permutations(clause)
 
     clause_permutations_regex = (
-        rf"{STATEMENT_START}(?P<clause_syntax_error>{all_permutations_joined})\s*\("
+        rf"{STATEMENT_START}(?P<clause_syntax_error>{all_permutations_joined})\b[^;(]*\("
     )
 
     return clause_permutations_regex
-- 
2.43.0


From 3ee6f9d286fb633c617632f2cb189bfd443ee064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 27/30] fix: a property outside of its curly brackets is
 refused

---
 .../clauses/parsing_helpers/parse_properties.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index f478648..bf68714 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -54,9 +54,9 @@ def parse_properties(properties_string: str) -> dict:
             ] = value_parsed
 
     # Everything between the curly brackets must be one of the properties found
-    leftover = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string)
-    separators = "," * (len(primitive_property_dictionary) - 1)
-    if "".join(leftover.split()) != f"{{{separators}}}":
+    shape = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("-", properties_string)
+    expected_shape = ",".join("-" * len(primitive_property_dictionary))
+    if "".join(shape.split()) != f"{{{expected_shape}}}":
         raise WiggleGraphIllegalPropertyValue(
             f"Error for setting property in {properties_string} please check the values and that the names are unique"
         )
-- 
2.43.0


From 05413d683ff6e2186f95e581378b0c5d94e6369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 28/30] fix: an interrupted creation of a DBMS left empty files
 that no query can use

---
 wiggle_shell/core/select_gdbms/select_database_file.py      | 6 ++----
 wiggle_shell/core/select_gdbms/select_index_file.py         | 6 ++----
 wiggle_shell/core/select_gdbms/select_wiggle_number_file.py | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_database_file.py b/wiggle_shell/core/select_gdbms/select_database_file.py
index c506791..7e98ebb 100644
--- a/wiggle_shell/core/select_gdbms/select_database_file.py
+++ b/wiggle_shell/core/select_gdbms/select_database_file.py
@@ -1,6 +1,7 @@
 from json import dumps
 from pathlib import Path
 
+from wiggle_query_language.graph.atomic_write import write_file_atomically
 from wiggle_shell import DBMS_FOLDER
 from wiggle_shell.core.select_gdbms.gdbms_folder import get_gdbms_folder_path
 
@@ -21,12 +22,9 @@ def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -
     if new_database_file_path.is_file():
         raise ValueError("A Database file already exists")
 
-    new_database_file_path.touch()
-
     new_db_dict = dict()
 
-    with open(new_database_file_path, "w") as file_handle:
-        file_handle.write(dumps(new_db_dict))
+    write_file_atomically(new_database_file_path, dumps(new_db_dict))
 
     return new_database_file_path
 
diff --git a/wiggle_shell/core/select_gdbms/select_index_file.py b/wiggle_shell/core/select_gdbms/select_index_file.py
index 206fd79..2d046df 100644
--- a/wiggle_shell/core/select_gdbms/select_index_file.py
+++ b/wiggle_shell/core/select_gdbms/select_index_file.py
@@ -1,6 +1,7 @@
 from json import dumps
 from pathlib import Path
 
+from wiggle_query_language.graph.atomic_write import write_file_atomically
 from wiggle_shell import DBMS_FOLDER
 from wiggle_shell.core.select_gdbms.gdbms_folder import get_gdbms_folder_path
 
@@ -23,16 +24,13 @@ def create_new_indexes_file(
     if new_indexes_file_path.is_file():
         raise ValueError("An Indexes file already exists")
 
-    new_indexes_file_path.touch()
-
     new_index_dict = {
         "node_relationships": {},
         "node_labels": [],
         "relationship_names": [],
     }
 
-    with open(new_indexes_file_path, "w") as file_handle:
-        file_handle.write(dumps(new_index_dict))
+    write_file_atomically(new_indexes_file_path, dumps(new_index_dict))
 
     return new_indexes_file_path
 
diff --git a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
index bc9cf6b..1b9ef94 100644
--- a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
+++ b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from project_root import get_project_root
+from wiggle_query_language.graph.atomic_write import write_file_atomically
 from wiggle_shell.core.select_gdbms.gdbms_folder import get_gdbms_folder_path
 
 DBMS_FOLDER = Path(f"{get_project_root()}/dbms/")
@@ -23,10 +24,7 @@ def create_new_wiggle_number_file(
     if new_wn_state_file_path.is_file():
         raise ValueError("A WiggleNUmber file already exists")
 
-    new_wn_state_file_path.touch()
-
-    with open(new_wn_state_file_path, "w") as file:
-        file.write("0")
+    write_file_atomically(new_wn_state_file_path, "0")
 
     return new_wn_state_file_path
 
-- 
2.43.0


From 79463817543d5929cb3e80b974919fb2d90af0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 29/30] fix: the name of a DBMS whose creation was interrupted
 could not be used again

---
 .../core/select_gdbms/select_gdbms.py         | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 59286d1..6874f64 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -86,6 +86,29 @@ def create_new_dbms(path_to_dbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
             continue
 
 
+def discard_unfinished_gdbms(gdbms_name: str, path_to_dbms_dir: Path) -> bool:
+    """
+    Discards what the interrupted creation of a DBMS left, so that it can be created again.
+    :param gdbms_name: The name of the DBMS.
+    :param path_to_dbms_dir: The directory of the DBMS folder.
+    :return: True, or raises a ValueError if the name is that of a DBMS.
+    """
+    db_path = get_gdbms_folder_path(gdbms_name, path_to_dbms_dir)
+    database_file_path = db_path.joinpath(f"database_{gdbms_name}.json")
+    indexes_file_path = db_path.joinpath(f"indexes_{gdbms_name}.json")
+
+    # The wiggle number is the last file of a DBMS to be created
+    if db_path.joinpath(f"wiggle_number_{gdbms_name}.txt").exists() or (
+        database_file_path.exists() and database_file_path.read_text() != "{}"
+    ):
+        raise ValueError("A DBMS already exists")
+
+    database_file_path.unlink(missing_ok=True)
+    indexes_file_path.unlink(missing_ok=True)
+
+    return True
+
+
 def get_new_gdbms_file_paths(
     new_gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER
 ) -> GDBMSFilePath:
@@ -98,6 +121,7 @@ def get_new_gdbms_file_paths(
 
     try:
         # todo cancel operation
+        discard_unfinished_gdbms(new_gdbms_name, path_to_dbms_dir)
         db_path = create_new_database(new_gdbms_name, path_to_dbms_dir)
         indexes_path = create_new_indexes_file(new_gdbms_name, path_to_dbms_dir)
         wn_path = create_new_wiggle_number_file(new_gdbms_name, path_to_dbms_dir)
-- 
2.43.0


From aec9aef44ece02b8ad3a9bbb1cf7cf2294475ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:40 +0000
Subject: [PATCH 30/30] fix: a run of whitespace in a malformed relationship
 took a query forever

---
 .../clauses/regexes/patterns/patterns.py             |  3 ++-
 .../clauses/regexes/patterns/patterns_helpers.py     | 12 ++++++++++++
 .../clauses/regexes/patterns/relationships.py        |  5 ++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/patterns.py b/wiggle_query_language/clauses/regexes/patterns/patterns.py
index 233e5a0..8d4be0a 100644
--- a/wiggle_query_language/clauses/regexes/patterns/patterns.py
+++ b/wiggle_query_language/clauses/regexes/patterns/patterns.py
@@ -2,10 +2,11 @@ from re import IGNORECASE, compile
 
 from wiggle_query_language.clauses.regexes.patterns.patterns_helpers import (
     get_nodes_rels_pattern_regex,
+    get_whole_runs_regex,
 )
 
 # (left:NodeLabel{LeftParams})-[r:LM{LMParams}]->(middle:NodeLabel{MiddleParams})-[r2:MR{MRParams}]->(right:NodeLabel{RightParams});
 NODES_RELS_PATTERN_REGEX = compile(
-    pattern=rf"{get_nodes_rels_pattern_regex()}",
+    pattern=rf"{get_whole_runs_regex(get_nodes_rels_pattern_regex())}",
     flags=IGNORECASE,
 )
diff --git a/wiggle_query_language/clauses/regexes/patterns/patterns_helpers.py b/wiggle_query_language/clauses/regexes/patterns/patterns_helpers.py
index fa4d280..a034c86 100644
--- a/wiggle_query_language/clauses/regexes/patterns/patterns_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/patterns_helpers.py
@@ -1,3 +1,5 @@
+from re import sub
+
 from wiggle_query_language.clauses.regexes import EXTRA_ALLOWED_CHARS
 
 
@@ -62,3 +64,13 @@ def get_nodes_rels_pattern_regex() -> str:
     right_node_regex = get_node_pattern_regex("right")
 
     return rf"{left_node_regex}?{left_middle_rel_regex}?{middle_node_regex}?{middle_right_rel_regex}?{right_node_regex}?"
+
+
+def get_whole_runs_regex(pattern: str) -> str:
+    """
+    Makes the whitespaces and words of a pattern match whole runs of them only. The same text is matched, but a run is
+    never shared out between neighbouring parts of the pattern, there are far too many ways to do so for a long run.
+    :param pattern: A regex expression.
+    :return: A regex expression.
+    """
+    return sub(r"(\\[sw])[*+]", r"\g<0>(?!\g<1>)", pattern)
diff --git a/wiggle_query_language/clauses/regexes/patterns/relationships.py b/wiggle_query_language/clauses/regexes/patterns/relationships.py
index 670f6bc..11fd656 100644
--- a/wiggle_query_language/clauses/regexes/patterns/relationships.py
+++ b/wiggle_query_language/clauses/regexes/patterns/relationships.py
@@ -3,11 +3,14 @@ from re import IGNORECASE, compile
 from wiggle_query_language.clauses.regexes.patterns.patterns_helpers import (
     get_all_params_regex,
     get_rel_pattern_regex,
+    get_whole_runs_regex,
 )
 
 # -[r:Rel]->
 RELATIONSHIP_DIR_CHECK_REGEX = compile(
-    pattern=rf"(?P<foo><?-+\[\s*\w*\s*:?\s*(?P<rel_name>\w*)\s*{get_all_params_regex()}-+>?)",
+    pattern=get_whole_runs_regex(
+        rf"(?P<foo><?-+\[\s*\w*\s*:?\s*(?P<rel_name>\w*)\s*{get_all_params_regex()}-+>?)"
+    ),
     flags=IGNORECASE,
 )
 
-- 
2.43.0

