From a09f1da8eb6c740c7db7f2815638a33aafdc0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 01/11] fix: keep the leading parts of an identifier in
 irregular plurals

plural('Old_matrix') returned 'matrices', so that a valid schema with
such a class ended in a contract violation instead of generated code.
---
 mapry/naming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index cca62be..7f0f5a4 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -75,7 +75,7 @@ def plural(identifier: str) -> str:
     last_part = parts[-1]
 
     if last_part in PLURAL_TABLE:
-        return PLURAL_TABLE[last_part]
+        return '_'.join(parts[:-1] + [PLURAL_TABLE[last_part]])
 
     if (last_part.endswith('ay') or last_part.endswith('ey')
             or last_part.endswith('iy') or last_part.endswith('oy')
-- 
2.43.0


From a3fbb40127cdc1996fc3f8b378ad0427714fb39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 02/11] fix: report a schema that is cut off after a line end

The line of a JSON error was looked up in a second reading of the file
whose lines did not match those the decoder counts: an empty schema, or
one cut off right after a line end, ended in an IndexError instead of
the diagnostic, and a schema replaced in between was quoted wrongly.
---
 mapry/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 4990f94..eee0966 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -383,14 +383,16 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
     with path.open('rt') as fid:
         jsonerr = None  # type: Optional[json.JSONDecodeError]
 
+        text = fid.read()
+
         try:
-            obj = json.load(fp=fid, object_pairs_hook=_OrderedDictPP)
+            obj = json.loads(text, object_pairs_hook=_OrderedDictPP)
             return schema_from_mapping(mapping=obj, ref='{}#'.format(str(path)))
         except json.JSONDecodeError as err:
             jsonerr = err
 
         if jsonerr is not None:
-            lines = path.read_text().splitlines()
+            lines = text.split('\n')
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
-- 
2.43.0


From 2cb9b1b3d283b49a4a8f3be36ca2f42a2211ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 03/11] fix: read schemas and write code as UTF-8 whatever the
 locale

JSON, Go and Python sources are UTF-8 by definition. With the encoding
taken from the locale, the code generated for a schema with non-ASCII
descriptions depended on the environment, or generation died half-way
and left truncated files.
---
 mapry/main.py  | 6 +++---
 mapry/parse.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mapry/main.py b/mapry/main.py
index 8410d75..78835a7 100644
--- a/mapry/main.py
+++ b/mapry/main.py
@@ -79,7 +79,7 @@ def generate_cpp(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -132,7 +132,7 @@ def generate_go(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -183,7 +183,7 @@ def generate_py(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
diff --git a/mapry/parse.py b/mapry/parse.py
index eee0966..a51e3de 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -380,7 +380,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
     :param path: to the JSON-encoded mapry schema.
     :return: parsed schema
     """
-    with path.open('rt') as fid:
+    with path.open('rt', encoding='utf-8') as fid:
         jsonerr = None  # type: Optional[json.JSONDecodeError]
 
         text = fid.read()
-- 
2.43.0


From d6684c9177630080d27d312dc55222e42af7b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 04/11] fix: serialize properties with upper-case names in
 generated Python

The attributes of the generated classes are named with as_attribute(), but
the serializers of classes and embeddable structures accessed them by the
plain property name.
---
 mapry/py/generate/tojsonable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index 0ecf5fc..bf87884 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -566,7 +566,8 @@ def _serialize_class_or_embed(
     property_serializations = [
         _serialize_property(
             target_expr="target[{}]".format(repr(prop.json)),
-            value_expr="instance.{}".format(prop.name),
+            value_expr="instance.{}".format(
+                mapry.py.naming.as_attribute(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             py=py)
-- 
2.43.0


From 6a64290d7011819473b38a5102bb3160226e1833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 05/11] fix: escape braces of patterns and formats in generated
 error messages

A pattern such as '^[0-9a-f]{8}$' ended up in a str.format template of the
generated Python parser, which raised IndexError or KeyError instead of
reporting the mismatch.
---
 mapry/py/generate/fromjsonable.py | 10 +++++-----
 mapry/py/jinja2_env.py            |  6 ++++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 25a0b1c..7eb5867 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -472,7 +472,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_format)|repr }}.format(
                 {{ value }}))
     else:
         {{ target_expr }} = {{ value }}
@@ -546,7 +546,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_format)|repr }}.format(
                 {{ value }}))
     else:
         {{ set_target|indent|indent }}
@@ -611,7 +611,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_format)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -669,7 +669,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_format)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -728,7 +728,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_format)|repr }}.format(
                 {{ value }}))
 ''')
 
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 89f6f06..2d6fe11 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -12,6 +12,11 @@ def _raise(message: str) -> None:
     raise Exception(message)
 
 
+def _escape_format(text: str) -> str:
+    """Escape the text to be used literally in a ``str.format`` template."""
+    return text.replace('{', '{{').replace('}', '}}')
+
+
 ENV = jinja2.Environment(
     trim_blocks=True, lstrip_blocks=True, loader=jinja2.BaseLoader())
 ENV.filters.update({
@@ -21,6 +26,7 @@ ENV.filters.update({
     'comment': mapry.py.generate.comment,
     'as_docstring': mapry.py.generate.docstring,
     'repr': repr,
+    'escape_format': _escape_format,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
     '_raise': _raise
-- 
2.43.0


From 078bae816ca4e088a361898627f1c8d0847c08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 06/11] fix: convert weekday directives to Go's reference
 weekday

Go's layouts spell the weekday as Mon and Monday. The directives %a and %A
were converted to Sun and Sunday, which Go takes literally, so that dates on
other weekdays were rejected and every written date was a Sunday.
---
 mapry/go/timeformat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index fd5bf85..013bf44 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -8,8 +8,8 @@ import mapry.strftime
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
 _STRFTIME_TO_GO = {
-    '%a': 'Sun',
-    '%A': 'Sunday',
+    '%a': 'Mon',
+    '%A': 'Monday',
     '%b': 'Jan',
     '%B': 'January',
     '%d': '02',
-- 
2.43.0


From 940722ee620f51e1a66a48bfaba4a8a7c72203b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 07/11] fix: escape percent signs of patterns and formats in Go
 error messages

The pattern or the format ended up in a template of fmt.Sprintf, so that a
percent sign consumed the offending value and garbled the message.
---
 mapry/go/generate/fromjsonable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index ba4181c..f4dc7c2 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -692,7 +692,7 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected to match %s, but got: %%s"|
-                    format(a_type.pattern.pattern)|escaped_str }},
+                    format(a_type.pattern.pattern|replace("%", "%%"))|escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = cast{{ uid }}
@@ -761,7 +761,7 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected layout %s, got: %%s"|
-                    format(converted_format)|escaped_str }},
+                    format(converted_format|replace("%", "%%"))|escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = target{{ uid }}
@@ -1688,7 +1688,7 @@ func {{ graph.name|ucamel_case }}FromJSONable(
                         {{ cls.plural|camel_case }}Ref,
                         fmt.Sprintf(
                             {{ "expected ID to match %s, but got: %%s"|
-                                format(cls.id_pattern.pattern)|escaped_str }},
+                                format(cls.id_pattern.pattern|replace("%", "%%"))|escaped_str }},
                             id))
                 } else {
                     {{ preallocate_instance|
-- 
2.43.0


From d2b3d6e17fe222b8e4fed2cef7e0b5bb0dfbcd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:51 +0000
Subject: [PATCH 08/11] fix: name upper-case properties consistently in C++

---
 mapry/cpp/generate/jsoncpp_impl.py | 6 ++++--
 mapry/cpp/generate/types_header.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 8735d89..6580f1a 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2687,7 +2687,8 @@ def _serialize_class_or_embed(
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(class_or_embed.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
@@ -2773,7 +2774,8 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(graph.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 6ef087b..78a605b 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -6,6 +6,7 @@ from icontract import ensure
 import mapry
 import mapry.cpp.generate
 import mapry.cpp.jinja2_env
+import mapry.cpp.naming
 import mapry.indention
 
 
@@ -235,6 +236,7 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
 
     for prop in composite.properties.values():
         block = []  # type: List[str]
+        field = mapry.cpp.naming.as_field(identifier=prop.name)
         if prop.description:
             block.append(mapry.cpp.generate.comment(text=prop.description))
 
@@ -257,9 +259,9 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
             def_val = _default_value(a_type=prop.type, cpp=cpp)
 
         if def_val is not None:
-            block.append("{} {} = {};".format(prop_type, prop.name, def_val))
+            block.append("{} {} = {};".format(prop_type, field, def_val))
         else:
-            block.append("{} {};".format(prop_type, prop.name))
+            block.append("{} {};".format(prop_type, field))
 
         blocks.append('\n'.join(block))
 
-- 
2.43.0


From 3be595b5c1a7e104b7485b41877db3f09ca7bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 09/11] fix: parse optional dates and datetimes with date.h

---
 mapry/cpp/generate/jsoncpp_impl.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 6580f1a..7e4b5bc 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -6,7 +6,7 @@
 import re
 import textwrap
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping, Set, Union)
+    Dict, List, Mapping, MutableMapping, Set, Tuple, Union)
 
 import icontract
 from icontract import ensure
@@ -1877,12 +1877,17 @@ def _parse_property(
     ]
 
     # Special handling of the optional property
+    dereferenced_types = (mapry.Array, mapry.Map)  # type: Tuple[type, ...]
+    if cpp.datetime_library == 'date.h':
+        # date::parse needs the value itself as a target.
+        dereferenced_types += (mapry.Date, mapry.Datetime)
+
     needs_emplace = isinstance(
-        a_property.type, (mapry.Array, mapry.Map, mapry.Embed))
+        a_property.type, dereferenced_types + (mapry.Embed, ))
 
     parsing_target_expr = property_target_expr
     if a_property.optional:
-        if isinstance(a_property.type, (mapry.Array, mapry.Map)):
+        if isinstance(a_property.type, dereferenced_types):
             parsing_target_expr = "*{}".format(property_target_expr)
         elif isinstance(a_property.type, mapry.Embed):
             parsing_target_expr = "(*{})".format(property_target_expr)
-- 
2.43.0


From 532ea1b71d04e4903fa3551f0bf3977cf2241762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 10/11] fix: define embedded structures before their use in C++

---
 mapry/cpp/generate/types_header.py | 45 +++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 78a605b..ddd394a 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -295,6 +295,49 @@ def _embed_definition(embed: mapry.Embed, cpp: mapry.Cpp) -> str:
                                                       cpp=cpp)).strip()
 
 
+def _embedded(a_type: mapry.Type) -> Optional[mapry.Embed]:
+    """
+    Look for an embeddable structure in a type or the values it contains.
+
+    :param a_type: a mapry type of a property
+    :return: embeddable structure, None if there is none
+    """
+    while isinstance(a_type, (mapry.Array, mapry.Map)):
+        a_type = a_type.values
+
+    return a_type if isinstance(a_type, mapry.Embed) else None
+
+
+def _order_embeds(graph: mapry.Graph) -> List[mapry.Embed]:
+    """
+    Order the embeddable structures so that the embedded ones come first.
+
+    The order of the definition is kept wherever possible.
+
+    :param graph: definition of the object graph
+    :return: ordered embeddable structures
+    """
+    ordered = []  # type: List[mapry.Embed]
+    visited = set()  # type: Set[mapry.Embed]
+
+    def visit(embed: mapry.Embed) -> None:
+        if embed in visited:
+            return
+        visited.add(embed)
+
+        for prop in embed.properties.values():
+            embedded = _embedded(a_type=prop.type)
+            if embedded is not None:
+                visit(embedded)
+
+        ordered.append(embed)
+
+    for embed in graph.embeds.values():
+        visit(embed)
+
+    return ordered
+
+
 _CLASS_DEFINITION_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 {% if cls.description %}
@@ -391,7 +434,7 @@ def generate(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
 
     blocks.append(_forward_declarations(graph=graph))
 
-    for embed in graph.embeds.values():
+    for embed in _order_embeds(graph=graph):
         blocks.append(_embed_definition(embed=embed, cpp=cpp))
 
     for cls in graph.classes.values():
-- 
2.43.0


From 7da66a6d3c60067f1c3c515344245192c200fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:17 +0000
Subject: [PATCH 11/11] fix: compile the Go code of an empty object graph

---
 mapry/go/generate/fromjsonable.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index f4dc7c2..5146a46 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -46,7 +46,14 @@ def _imports(graph: mapry.Graph) -> str:
     :param go: Go settings
     :return: generated code
     """
-    import_set = {'strings', 'fmt'}
+    import_set = {'fmt'}
+
+    # yapf: disable
+    if (graph.classes or graph.properties
+            or any(embed.properties for embed in graph.embeds.values())):
+        # needed to join the reference paths
+        import_set.add('strings')
+    # yapf: enable
 
     if mapry.needs_type(a_type=graph, query=mapry.Integer):
         import_set.add('math')
@@ -1641,7 +1648,11 @@ func {{ graph.name|ucamel_case }}FromJSONable(
         panic("unexpected non-empty errors")
     }
 
+    {% if graph.classes or property_parsings %}
     cast, ok := value.(map[string]interface{})
+    {% else %}
+    _, ok := value.(map[string]interface{})
+    {% endif %}{# /if graph.classes or property_parsings #}
     if !ok {
         errors.Add(
             ref,
-- 
2.43.0

