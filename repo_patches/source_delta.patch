From 28f86d1f63c68e69cc8f2e6d942ac5aaea01deac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 01/95] fix: escape delimiters of the first field
 appended/prepended to a path

---
 marsh/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/path.py b/marsh/path.py
index e69d458..1317f94 100644
--- a/marsh/path.py
+++ b/marsh/path.py
@@ -144,7 +144,7 @@ def prepend(
         The prepended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
@@ -171,7 +171,7 @@ def append(
         The appended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
-- 
2.43.0


From d3c212bc097c40be596b167f795b6e3f82dceb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:36 +0000
Subject: [PATCH 02/95] fix: combine the value of an override with the value at
 the end of its path

---
 marsh/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/element.py b/marsh/element.py
index c66f366..56ca2e0 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -245,6 +245,7 @@ def override(
                 element=element.get(field, {}),
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
     elif marsh.utils.is_sequence(element):
         try:
@@ -266,6 +267,7 @@ def override(
                 element=element[index],
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
         element = tuple(element)
     else:
-- 
2.43.0


From 873e31a8d51acdfabe779167b4308a945256b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 03/95] fix: escape the field in the error path of a failed
 removal

---
 marsh/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index 56ca2e0..edcbf0e 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -311,7 +311,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[field] = remove(
@@ -342,7 +342,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[index] = remove(
-- 
2.43.0


From 7bf2aec54cda2891555a0bd72958de63bba312a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 04/95] fix: a path without fields ('.') refers to the root of
 an element, as documented

---
 marsh/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index edcbf0e..200bb31 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -73,7 +73,7 @@ def iterative_select(
         path='',
         remaining_path=path,
     )
-    if not path:
+    if not marsh.path.split(path):
         return
     field, remaining_path = marsh.path.head(path)
     if marsh.utils.is_mapping(element):
@@ -219,7 +219,7 @@ def override(
     Returns:
         A copy of the element with a new value set for the specified path.
     """
-    if not path:
+    if not marsh.path.split(path):
         if combine:
             if (
                 marsh.utils.is_mapping(element)
@@ -293,7 +293,7 @@ def remove(
     Returns:
         A copy of the element with the value for the specified path removed.
     """
-    if not path:
+    if not marsh.path.split(path):
         raise ValueError('no path specified')
     field, remaining_path = marsh.path.head(path)
     if marsh.utils.is_mapping(element):
-- 
2.43.0


From f3cd25e9020c53f98c73026f6779d97ae11d6d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 05/95] fix: parse integers of any size without loss of
 precision

---
 marsh/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index cf832f7..f93789b 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -414,6 +414,10 @@ def terminal(
         raise err
     if quoted or not value:
         return value
+    try:
+        return int(value)
+    except ValueError:
+        pass
     try:
         fl_value = float(value)
         if fl_value.is_integer():
-- 
2.43.0


From b811a34af7558470684f836ee77fc2060382ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 06/95] fix: raise a parse error for a missing closing quote

---
 marsh/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index f93789b..7770de4 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -356,6 +356,8 @@ def string(
         if peek(source) in QUOTE_CHARACTERS:
             quote = pop(source)
         while (char := peek(source)) not in terminal_chars or quote:
+            if not source:
+                break
             if char == ESCAPE:
                 if len(source) < 2:
                     raise ParseError(
-- 
2.43.0


From eaac207f53ae30acead6698471acff753b9f89d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 07/95] fix: accept whitespace before the closing bracket of a
 parsed sequence

---
 marsh/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index 7770de4..2aebd63 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -527,6 +527,7 @@ def sequence(
                     terminal_chars=',' + closing_char,
                 ),
             )
+            consume_whitespace(source)
         consume_whitespace(source)
         if peek(source) != closing_char:
             raise ParseError(
-- 
2.43.0


From 0d6e2e8034923dbf0ff39bcac0109eaab5a4538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 08/95] fix: make parse errors marsh errors so that entry
 points report them

---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index 2aebd63..a438c99 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -41,7 +41,7 @@ class _ParseFunction(Protocol):
         ...
 
 
-class ParseError(Exception):
+class ParseError(marsh.errors.MarshError):
 
     def __init__(
         self,
-- 
2.43.0


From 0a564effa70182375700053604ff129e8b8e6bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 09/95] fix: find configs named without extension in the
 working directory

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 93c492b..d83b550 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -184,7 +184,7 @@ def find_config(
                 f'could not find config {target} ',
             )
         return target
-    dpath = os.path.dirname(target)
+    dpath = os.path.dirname(target) or os.curdir
     if not os.path.isdir(dpath):
         raise marsh.errors.ConfigFileError(
             f'unable to browse directory "{dpath}" '
-- 
2.43.0


From aa24b1c0e49ca917ed68eeedc846ed599fdc7d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 10/95] fix: include the configs of subdirectories in a config
 tree

---
 marsh/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index d83b550..5ce120a 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -252,8 +252,8 @@ def tree(
     for name in os.listdir(path):
         if os.path.isdir(os.path.join(path, name)):
             subtree = tree(os.path.join(path, name))
-            if subtree.count('\n') > 1:
-                subtrees.append(name)
+            if '\n' in subtree:
+                subtrees.append(subtree)
         else:
             if config_type_is_supported(name):
                 configs.append(name)
-- 
2.43.0


From c7439890eeea48f3f33c5a7a80c0a28e90101968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 11/95] fix: write plain YAML (no python tags) when writing a
 config to stdout

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 5ce120a..8d6ad23 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -343,7 +343,7 @@ def write(
             If not specified, stdout is used.
     """
     if path == '-':
-        yaml.dump(config, sys.stdout)
+        yaml.safe_dump(config, sys.stdout)
     else:
         ConfigSchema(path).dump(config)
 
-- 
2.43.0


From 08ee501a512b3cc2f34f3cc558a85ba6af19944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 12/95] fix: find configs of types which are registered after
 the first lookup

---
 marsh/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 8d6ad23..0f96aa7 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -223,7 +223,6 @@ def find_config(
     raise marsh.errors.ConfigFileError(err_msg)
 
 
-@marsh.utils.cache(maxsize=32, safe=False)
 def config_type_is_supported(
     path: str,
 ) -> bool:
-- 
2.43.0


From a49d992dfbf8fd861b89b4e5b2cea9f374062a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 13/95] fix: report config files that can not be decoded as
 config file errors

---
 marsh/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 0f96aa7..9a5c214 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -312,7 +312,14 @@ def load(
         if root and not name.startswith('/'):
             name = os.path.join(root, name)
         path = find_config(name)
-        configs.append(ConfigSchema(path).load())
+        try:
+            configs.append(ConfigSchema(path).load())
+        except marsh.errors.MarshError:
+            raise
+        except Exception as err:
+            raise marsh.errors.ConfigFileError(
+                f'failed to load config "{path}"',
+            ) from err
     config = marsh.element.merge(*configs, concatenate=concatenate)
     if (
         resolve
-- 
2.43.0


From 9a0aad636c1c4c78ee785eaf9f5dc736bfc91cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 14/95] fix: restore the working directory when an application
 fails

---
 marsh/entry_point.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 02ac22a..79f11f5 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -229,9 +229,11 @@ class EntryPoint:
             with marsh.errors.maybe_handle_error(handle_create_dir_error):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
-        yield
-        if prev_path is not None:
-            os.chdir(prev_path)
+        try:
+            yield
+        finally:
+            if prev_path is not None:
+                os.chdir(prev_path)
 
     def maybe_print_help(
         self,
-- 
2.43.0


From e05ca7b94d98dec11901f48f94c4e8fdbd97c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 15/95] fix: report an output directory that can not be created

---
 marsh/entry_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 79f11f5..f497752 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -226,9 +226,9 @@ class EntryPoint:
                 print(f'failed to create output directory {path}: {error}')
                 sys.exit(1)
 
-            with marsh.errors.maybe_handle_error(handle_create_dir_error):
+            with marsh.errors.maybe_handle_error(handle_create_dir_error, OSError):
                 os.makedirs(path, exist_ok=True)
-            os.chdir(path)
+                os.chdir(path)
         try:
             yield
         finally:
-- 
2.43.0


From 3b2bfe761b65eac1565cea349c2b198926ef4f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 16/95] fix: bind the arguments of callables with variable
 positional or keyword-only parameters like python does

---
 marsh/schema/template/callable.py   |  7 +++++--
 marsh/schema/template/structured.py | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 24911c9..e6c50c2 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -38,6 +38,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             annotations = {}
         positional = {}
         keyword = {}
+        keyword_only = {}
         var_positional = None
         var_keyword = None
         for name, param in sig.parameters.items():
@@ -58,18 +59,20 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             elif param.kind == param.POSITIONAL_OR_KEYWORD:
                 keyword[name] = schema
             elif param.kind == param.KEYWORD_ONLY:
-                keyword[name] = schema
+                keyword_only[name] = schema
             elif param.kind == param.VAR_POSITIONAL:
                 var_positional = (name, schema)
             elif param.kind == param.VAR_KEYWORD:
                 var_keyword = (name, schema)
         self.positional = tuple(positional)
+        self.keyword_only = tuple(keyword_only)
         schemas = {}
         schemas.update(positional)
+        schemas.update(keyword)
         if var_positional:
             name, schema = var_positional
             schemas[f'*{name}'] = schema
-        schemas.update(keyword)
+        schemas.update(keyword_only)
         if var_keyword:
             name, schema = var_keyword
             schemas[f'**{name}'] = schema
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 20294ef..25b58d8 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -31,6 +31,9 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     positional: Sequence[str] = ()
     """Names of attributes that can only be used as positional arguments."""
 
+    keyword_only: Sequence[str] = ()
+    """Names of attributes that can only be used as keyword arguments."""
+
     def __str__(
         self,
     ) -> str:
@@ -197,17 +200,24 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                         with marsh.errors.prepend(key):
                             kwargs[key] = schema.unmarshal(element_dict.pop(key))
                 elif name.startswith('*'):
+                    if element_list or default_args:
+                        # everything in front of variable positional
+                        # arguments has to be positional as well
+                        args.extend(kwargs.values())
+                        kwargs = {}
                     for i in range(len(element_list)):
                         with marsh.errors.prepend(i):
                             args.append(schema.unmarshal(element_list.pop(0)))
                     args.extend(default_args)
                     default_args = []
                 else:
-                    if element_list:
+                    positional = name not in self.keyword_only
+                    if element_list and positional:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
+                        default_kwargs.pop(name, None)
                     else:
-                        if default_args:
+                        if default_args and positional:
                             value = default_args.pop(0)
                             if name not in element_dict:
                                 kwargs[name] = value
-- 
2.43.0


From 79d26b4120b9f741a70d4d5ce0d2ddef700bf96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 17/95] fix: unmarshal sequences to dataclasses with init-only
 or keyword-only fields in the order of their arguments

---
 marsh/schema/types/dataclass.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 2666e2b..dcfab26 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -125,10 +125,20 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                 return resolve_type(type_.type)
             return type_
 
-        for field in (
-            dataclasses.fields(self.value)
-            + get_init_var_fields(self.value)
-        ):
+        order = list(getattr(self.value, _FIELDS))
+        fields = sorted(
+            dataclasses.fields(self.value) + get_init_var_fields(self.value),
+            key=lambda field: (
+                getattr(field, 'kw_only', False) is True,
+                order.index(field.name),
+            ),
+        )
+        self.keyword_only = tuple(
+            field.name
+            for field in fields
+            if getattr(field, 'kw_only', False) is True
+        )
+        for field in fields:
             if not field.init:
                 continue
             with marsh.errors.prepend(field.name):
-- 
2.43.0


From bf9964e8d9ac1782d812c1ce417367b0ed09234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:43 +0000
Subject: [PATCH 18/95] fix: report a value that matches none of several
 literals as an unmarshal error

---
 marsh/schema/types/literal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/literal.py b/marsh/schema/types/literal.py
index 0e73105..9c4f7e5 100644
--- a/marsh/schema/types/literal.py
+++ b/marsh/schema/types/literal.py
@@ -55,10 +55,12 @@ class LiteralUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
     ) -> _T:
         try:
             return super().unmarshal(element)
+        except marsh.errors.MissingValueError:
+            raise
         except Exception:
             closest = marsh.utils.get_closest(
                 value=str(element),
-                candidates=(schema.literal_value for schema in self.schemas),
+                candidates=(str(schema.literal_value) for schema in self.schemas),
             )
             err_msg = (
                 'failed to unmarshal input into one '
-- 
2.43.0


From 645d96f197cbe01a65312405ee0566bcd01e45c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:47 +0000
Subject: [PATCH 19/95] fix: unmarshal strings and floats to instances of an
 integer subclass

---
 marsh/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8f0338a..63ee9ac 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2092,9 +2092,9 @@ def cast_primitive(
     if issubclass(type_, bool):
         return primitive_to_bool(value)
     if issubclass(type_, int) and isinstance(value, str):
-        return str_to_int(value)
-    if issubclass(type_, int) and isinstance(value, float):
-        return float_to_int(value)
+        value = str_to_int(value)
+    elif issubclass(type_, int) and isinstance(value, float):
+        value = float_to_int(value)
     return type_(value)
 
 
-- 
2.43.0


From 2390852b995593f018cd46d14e7490b19e1f8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 20/95] fix: unmarshal fixed size tuples from missing values
 and index mappings

---
 marsh/schema/types/tuple.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index 4172504..d53bab8 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -53,9 +53,24 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
         )
         return f'[{content}]'
 
+    def unmarshal(
+        self,
+        element: marsh.element.ElementType,
+        *args,
+        **kwargs,
+    ) -> tuple:
+        value = super().unmarshal(element, *args, **kwargs)
+        if marsh.utils.is_sequence(element) and len(element) < len(self.schemas):
+            raise marsh.errors.UnmarshalError(
+                f'expected {len(self.schemas)} values, got {len(element)}',
+                element=element,
+                type=self.value,
+            )
+        return value
+
     def construct(
         self,
         *args,
         **kwargs,
     ) -> tuple:
-        return tuple(args, **kwargs)
+        return (*args, *kwargs.values())
-- 
2.43.0


From 4d1014ad2ca519e48891d80f93c6830f09912e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 21/95] fix: use the default of a missing None, datetime or
 protocol value

---
 marsh/schema/types/datetime.py | 2 ++
 marsh/schema/types/none.py     | 2 ++
 marsh/schema/types/protocol.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 4899039..8dfd99d 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -114,6 +114,8 @@ class DatetimeUnmarshalSchema(
         element: marsh.element.ElementType,
     ) -> Union[datetime.time, datetime.date]:
         if marsh.utils.is_missing(element):
+            if self.has_default():
+                return self.get_default()
             raise marsh.errors.MissingValueError(
                 type=self.value,
             )
diff --git a/marsh/schema/types/none.py b/marsh/schema/types/none.py
index 81b7502..f21e7c3 100644
--- a/marsh/schema/types/none.py
+++ b/marsh/schema/types/none.py
@@ -80,6 +80,8 @@ class NoneUnmarshalSchema(marsh.schema.UnmarshalSchema[None]):
         self,
         element: marsh.element.ElementType,
     ) -> None:
+        if marsh.utils.is_missing(element) and self.has_default():
+            return self.get_default()
         if element is None or marsh.utils.is_missing(element):
             return None
         raise marsh.errors.UnmarshalError(
diff --git a/marsh/schema/types/protocol.py b/marsh/schema/types/protocol.py
index da5a8dc..e16fa81 100644
--- a/marsh/schema/types/protocol.py
+++ b/marsh/schema/types/protocol.py
@@ -90,6 +90,8 @@ class ProtocolUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
         self,
         element: marsh.element.ElementType,
     ) -> Any:
+        if marsh.utils.is_missing(element) and self.has_default():
+            return self.get_default()
         for type_ in self.matched:
             try:
                 return marsh.unmarshal(type_, element)
-- 
2.43.0


From 9f7dec58750e201a1f0250d357779b0474d26335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 22/95] fix: only treat references from within a type to itself
 as recursive

---
 marsh/schema/core/unmarshal.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d821b95..11915bd 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -259,9 +259,14 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             except KeyError:
                 pass
         result = cls.registry.match(value)
-        result.insert(0, RecursiveReferenceUnmarshalSchema)
-        recursive_cache[value] = result
-        return result[1:].build(value, *args, **kwargs)
+        recursive_cache[value] = base.SchemaSelection(
+            (RecursiveReferenceUnmarshalSchema, *result),
+        )
+        try:
+            return result.build(value, *args, **kwargs)
+        finally:
+            # only references from within the type itself are recursive
+            del recursive_cache[value]
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
-- 
2.43.0


From 0cd5fda0900ca776d51917c8f569cafe59098c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 23/95] fix: do not share cached schemas between types or
 defaults that merely compare equal

---
 marsh/schema/core/unmarshal.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 11915bd..c69a03e 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -16,6 +16,7 @@ from typing import (
     Type,
     TypeVar,
     Union,
+    get_args,
     get_origin,
     overload,
 )
@@ -43,6 +44,27 @@ skip_cache_types = {
 }
 
 
+def is_order_dependent(
+    value: Any,
+) -> bool:
+    """Determine if a union or a literal is part of a type alias.
+
+    These compare equal no matter the order of their arguments.
+
+    Arguments:
+        value: The type.
+
+    Returns:
+        ``True`` if there is a union or literal, else ``False``.
+    """
+    origin = get_origin(value)
+    if origin is Union or marsh.utils.is_literal(value):
+        return True
+    if origin is None:
+        return False
+    return any(map(is_order_dependent, get_args(value)))
+
+
 def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
@@ -229,7 +251,9 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if get_origin(value) is Union:
+        if args or kwargs or is_order_dependent(value):
+            # values that compare equal are not always interchangeable, such
+            # as unions of a different order or the default values 1 and True
             return cls._build(
                 value=value,
                 *args,
-- 
2.43.0


From ac60e78ee9e58de59e58b86168d49df997f12122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 24/95] fix: unmarshal unions written as X | Y

---
 marsh/schema/core/unmarshal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index c69a03e..761c78f 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -2,6 +2,7 @@ import collections
 import dataclasses
 import importlib
 import threading
+import types
 from typing import (
     Any,
     Callable,
@@ -26,6 +27,10 @@ import marsh
 from . import base
 
 
+# python 3.10+
+UnionType: Any = getattr(types, 'UnionType', ())
+
+
 _T = TypeVar('_T')
 _RelativePriority: TypeAlias = \
     marsh.utils.PriorityOrder.RelativePriority[Type['UnmarshalSchema']]
@@ -121,6 +126,9 @@ def resolve_type(
                 cache,
             )
             return resolve_type(value, cache)
+        if isinstance(value, UnionType):
+            # X | Y instead of Union[X, Y]
+            return Union[get_args(value)]  # pyright: ignore
     except marsh.errors.MarshError:
         raise
     except Exception:
-- 
2.43.0


From 08b6d1c7855dd19c1f0c6e70c9bde3787d3c5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 25/95] fix: report timestamps that are out of range as
 unmarshal errors

---
 marsh/schema/types/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 8dfd99d..e481aec 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -137,7 +137,7 @@ class DatetimeUnmarshalSchema(
                 ts,
                 datetime.timezone.utc,
             )
-        except ValueError:
+        except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
                 dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
-- 
2.43.0


From f4306581256dab9477a86b470e7bb1a9dfceef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 26/95] fix: allow whitespace around the indices of a slice
 string, as its syntax does

---
 marsh/schema/types/slice.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index 53819b0..7c8d3c7 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -114,11 +114,18 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
                     element=element,
                     type=self.value,
                 )
-            args = tuple(
-                int(index) if index else None
-                for index
-                in element.split(':')
-            )
+            try:
+                args = tuple(
+                    int(index) if index else None
+                    for index
+                    in re.sub(r'\s', '', element).split(':')
+                )
+            except ValueError as err:
+                raise marsh.errors.UnmarshalError(
+                    f'invalid slice index: {err}',
+                    element=element,
+                    type=self.value,
+                ) from err
         if not args:
             return slice(None)
         try:
-- 
2.43.0


From 50013e7f7ac6360ae74b0b9ff82faaa826fc7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 27/95] fix: marshal members of a string enum to their value

---
 marsh/schema/types/primitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/primitive.py b/marsh/schema/types/primitive.py
index e8566e6..9809d00 100644
--- a/marsh/schema/types/primitive.py
+++ b/marsh/schema/types/primitive.py
@@ -44,7 +44,8 @@ class PrimitiveMarshalSchema(marsh.schema.MarshalSchema):
         elif isinstance(self.value, float):
             return float(self.value)
         else:
-            return str(self.value)
+            # subclasses (such as enums) may override __str__
+            return str.__str__(self.value)
 
 
 @marsh.schema.register
-- 
2.43.0


From 48e70e299dea1d19372f5cf6745aae631da2d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 28/95] fix: marshal the keys of a mapping, enum and bytes keys
 could not be unmarshaled again

---
 marsh/schema/types/generic.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/generic.py b/marsh/schema/types/generic.py
index d021ff9..dfcc69c 100644
--- a/marsh/schema/types/generic.py
+++ b/marsh/schema/types/generic.py
@@ -42,11 +42,20 @@ class GenericMappingMarshalSchema(marsh.schema.MarshalSchema):
     ) -> bool:
         return marsh.utils.is_mapping(value)
 
+    @staticmethod
+    def marshal_key(
+        key: Any,
+    ) -> str:
+        try:
+            return str(marsh.marshal(key))
+        except marsh.errors.MarshError:
+            return str(key)
+
     def marshal(
         self,
     ) -> dict:
         return {
-            str(key): marsh.marshal(self.value[key])
+            self.marshal_key(key): marsh.marshal(self.value[key])
             for key in self.value.keys()
         }
 
-- 
2.43.0


From c1347da226f338dd7d86979d84917215b1a57f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 29/95] fix: compare the contents of cached hash keys, keys
 with equal hashes were treated as equal

---
 marsh/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index 63ee9ac..822aeda 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -492,6 +492,7 @@ class _CachedHashKey(list):
         self,
         value,
     ):
+        super().__init__(value)
         self._hash = hash(value)
 
     def __hash__(self):
-- 
2.43.0


From 46f222e6b1ba7c081ba4d221e9a94a68b30091ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 30/95] fix: keep the order of a SafeDict when unhashable keys
 are set again or removed

---
 marsh/utils.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 822aeda..9362a13 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -591,6 +591,7 @@ class SafeDict(MutableMapping[_K, _V]):
             for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
                 if k == key:
                     self._unhashable_cache[-i] = (key, value)
+                    break
             else:
                 self._order.append((False, len(self._unhashable_cache)))
                 self._unhashable_cache.append((key, value))
@@ -607,24 +608,31 @@ class SafeDict(MutableMapping[_K, _V]):
                 if self._unhashable_cache:
                     for key_idx, k in enumerate(self._hashable_cache):
                         if k == key:
-                            for order_idx, (hashable, idx) in enumerate(self._order):
-                                if hashable and idx == key_idx:
-                                    self._order.pop(order_idx)
-                                    break
+                            self._remove_order(True, key_idx)
                             break
                 del self._hashable_cache[key]
                 return
         except TypeError:
-            for key_idx, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
+            for key_idx, (k, _) in enumerate(self._unhashable_cache):
                 if k == key:
-                    self._unhashable_cache.pop(-key_idx)
-                    for order_idx, (hashable, idx) in enumerate(self._order):
-                        if not hashable and idx == key_idx:
-                            self._order.pop(order_idx)
-                            break
+                    self._unhashable_cache.pop(key_idx)
+                    self._remove_order(False, key_idx)
                     return
         raise KeyError(key)
 
+    def _remove_order(
+        self,
+        hashable: bool,
+        index: int,
+    ) -> None:
+        # the position of the keys following the removed key
+        # is moved forward
+        self._order = [
+            (h, i - 1 if h is hashable and i > index else i)
+            for h, i in self._order
+            if (h, i) != (hashable, index)
+        ]
+
     def _ordered_iter(
         self,
         reverse: bool,
-- 
2.43.0


From 9284b436854d1401accd358077d44d9da0c700e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 31/95] fix: yield all items when iterations over a lazily
 stored iterator are interleaved

---
 marsh/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 9362a13..f991760 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -979,16 +979,22 @@ class IterableFromIterator(Generic[_T]):
         self,
         iterator: Iterator[_T],
     ) -> None:
-        self._iter = iterator
+        self._iter = iter(iterator)
         self._cache: list = []
 
     def __iter__(
         self,
     ) -> Iterator[_T]:
-        yield from self._cache
-        for item in self._iter:
-            self._cache.append(item)
-            yield item
+        index = 0
+        while True:
+            if index == len(self._cache):
+                try:
+                    item = next(self._iter)
+                except StopIteration:
+                    return
+                self._cache.append(item)
+            yield self._cache[index]
+            index += 1
 
     def __bool__(
         self,
-- 
2.43.0


From 034e142329a81d4e44ceb9042021e9c741422568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 32/95] fix: reject a value that is added twice to a priority
 order unless it is replaced

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index f991760..6fa3477 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1270,7 +1270,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
 
             # does the value to be added already exist?
             for i in range(len(self._values)):
-                if self._values[i] == wrapped:
+                if self._values[i].value == wrapped.value:
                     if replace:
                         del self._values[i]
                         break
-- 
2.43.0


From dff4d05d06599fb3ed69db6a8edeb04ce991e54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 33/95] fix: keep relative priorities when the order is
 recalculated after a removal

---
 marsh/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 6fa3477..67ba0bf 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1124,7 +1124,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         ) -> None:
             self.value = value
             self.name = str(value)
-            self.ident = hash(value)
+            self.ident = self.get_ident(value)
             self.priority = priority
             self.relative_priority = PriorityOrder._RelativePriorityContainer(
                 name=self.name,
@@ -1141,7 +1141,16 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
             return self.name
 
         @staticmethod
+        def get_ident(
+            value: Any,
+        ) -> int:
+            # the hash of an integer is not always the integer itself,
+            # do not differentiate between a value and its hash
+            return hash(hash(value))
+
+        @classmethod
         def resolve_priorities(
+            cls,
             priority: 'PriorityOrder.RelativePriority[_V]',
         ) -> Set[int]:
             if priority is None:
@@ -1151,10 +1160,10 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                     isinstance(priority, collections.abc.Iterable)
                     and not isinstance(priority, (str, bytes))
                 ):
-                    return set(map(hash, priority))
+                    return set(map(cls.get_ident, priority))
             except Exception:
                 pass
-            return {hash(priority)}
+            return {cls.get_ident(priority)}
 
     def __init__(
         self,
-- 
2.43.0


From e0c2774764067c42d3731b9a1e9efdc1946d4249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 34/95] fix: use newly registered schemas for types that have
 been used before

---
 marsh/schema/core/unmarshal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 761c78f..cca46d0 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -141,7 +141,8 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
     def cache_clear(
         self,
     ) -> None:
-        self.match.cache_clear()  # type: ignore
+        # nested schemas are cached together with the schemas using them
+        base.caches.cache_clear()
 
     def cache_info(
         self,
-- 
2.43.0


From 908dfc603a9f4708d85f244a4d9f490a2429a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 35/95] fix: resolve forward references that have to be
 evaluated (python 3.9 and later)

---
 marsh/schema/core/unmarshal.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index cca46d0..4d1e787 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -19,6 +19,7 @@ from typing import (
     Union,
     get_args,
     get_origin,
+    get_type_hints,
     overload,
 )
 from typing_extensions import TypeAlias
@@ -70,6 +71,16 @@ def is_order_dependent(
     return any(map(is_order_dependent, get_args(value)))
 
 
+def evaluate_forward_ref(
+    ref: ForwardRef,
+    module: str,
+) -> Any:
+    return get_type_hints(
+        types.SimpleNamespace(__annotations__={'ref': ref}),
+        vars(importlib.import_module(module)),
+    )['ref']
+
+
 def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
@@ -80,24 +91,18 @@ def resolve_forward_ref(
         mod, _, name = name.rpartition('.')
     if mod:
         try:
-            return ref._evaluate(
-                vars(importlib.import_module(mod)),
-                None,
-            )
+            return evaluate_forward_ref(ForwardRef(name), mod)
         except Exception:
             pass
     for type_ in cache:
         if marsh.utils.get_type_name(type_) == name:
             return type_
+    for type_ in cache:
         if hasattr(type_, '__module__'):
             try:
-                return ref._evaluate(
-                    vars(
-                        importlib.import_module(
-                            type_.__module__ + (f'.{mod}' if mod else ''),
-                        ),
-                    ),
-                    None,
+                return evaluate_forward_ref(
+                    ForwardRef(name),
+                    type_.__module__ + (f'.{mod}' if mod else ''),
                 )
             except Exception:
                 pass
-- 
2.43.0


From b5c5187abc82f25ccd50b7d599a4cd0475381153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 36/95] fix: document all default arguments of a structured
 type

---
 marsh/schema/template/structured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 25b58d8..29bfede 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -130,7 +130,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         default_args = list(default_args or ())
         default_kwargs = dict(default_kwargs or {})
         fields: Dict[str, UnmarshalSchema.Doc.Field] = {}
-        for i, (name, schema) in enumerate(self.schemas.items()):
+        for name, schema in self.schemas.items():
             fields[name] = UnmarshalSchema.Doc.Field(
                 doc=schema.doc(depth - 1),
                 type=schema.doc_field_type(),
@@ -148,11 +148,11 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                 if default_args:
                     default = str(default_args)
                     default_args = []
-            if i < len(default_args):
+            elif default_args and name not in self.keyword_only:
                 default = str(default_args.pop(0))
             if name in default_kwargs:
                 default = str(default_kwargs.pop(name))
-            if default:
+            if default is not None:
                 fields[name].doc.default = default
         return fields
 
-- 
2.43.0


From ffa379c213ced940de01dcf55856f121f80a265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 37/95] fix: keep the first line of a description within the
 width of the terminal

---
 marsh/doc/terminal.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marsh/doc/terminal.py b/marsh/doc/terminal.py
index 2688e9d..010ed4a 100644
--- a/marsh/doc/terminal.py
+++ b/marsh/doc/terminal.py
@@ -44,18 +44,18 @@ def format_terminal_value(
     if not description:
         return value
     fill_indent = ' ' * description_indent
-    fill_init_indent = fill_indent
     value_len = len(value.split('\n')[-1])
-    if description_indent - value_len >= description_margin:
-        fill_init_indent = fill_indent[value_len:]
-    else:
-        value = f'{value}\n'
     description = textwrap.fill(
         text=description,
         width=width,
-        initial_indent=fill_init_indent,
+        initial_indent=fill_indent,
         subsequent_indent=fill_indent,
     )
+    if description_indent - value_len >= description_margin:
+        # begin the description on the line of the value
+        description = description[value_len:]
+    else:
+        value = f'{value}\n'
     return f'{value}{description}'
 
 
-- 
2.43.0


From 2a7597b356b71ffb202f6db99235726851746c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 38/95] fix: do not use stale schemas when namespaces are
 created or deleted

---
 marsh/schema/namespace.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 123187a..19a38f8 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -138,6 +138,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         name,
     ) -> None:
         del self._namespaces[name]
+        self.cache_clear()
+        marsh.schema.UnmarshalSchema.cache_clear()
 
     def __contains__(
         self,
@@ -224,6 +226,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
                 base=base,
             )
         )
+        self.cache_clear()
+        marsh.schema.UnmarshalSchema.cache_clear()
         return namespace
 
     def cache_clear(
@@ -379,7 +383,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self.name = name
         self.base = base
         self.components = {}
-        self._schemas: Dict[str, core.unmarshal.UnmarshalSchema[_T]] = {}
         # when wrapping functions on an instance the `self`
         # argument is not included until the most inner
         # wrapped function is called which means that we
@@ -407,23 +410,21 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     key='name',
                 ),
             )
-        if name not in self._schemas:
-            # instead of picking out the matched
-            # schema types we need to run the normal
-            # constructor so that the type is cached.
-            # If not, the recursive tests for namespace
-            # components fail.
-            schema = marsh.schema.UnmarshalSchema[_T](
-                self.components[name],
-            )
-            # extract inner schema
-            while isinstance(
-                schema,
-                marsh.schema.types.namespace.NamespaceUnmarshalSchema,
-            ):
-                schema = schema.schema
-            self._schemas[name] = schema
-        return self._schemas[name]
+        # instead of picking out the matched
+        # schema types we need to run the normal
+        # constructor so that the type is cached.
+        # If not, the recursive tests for namespace
+        # components fail.
+        schema = marsh.schema.UnmarshalSchema[_T](
+            self.components[name],
+        )
+        # extract inner schema
+        while isinstance(
+            schema,
+            marsh.schema.types.namespace.NamespaceUnmarshalSchema,
+        ):
+            schema = schema.schema
+        return schema
 
     def __iter__(
         self,
@@ -562,7 +563,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     f'a component with the name "{name}" '
                     'already exists',
                 )
-            self._schemas.pop(name, None)
 
         def _register(
             component: Type[_T],
-- 
2.43.0


From ce9512836d35627aed7240d1196ac7ee282c6c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 39/95] fix: report a component name which is not a string as
 an unmarshal error

---
 marsh/schema/types/namespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 117cd62..9b7b6f9 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -136,7 +136,7 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
             candidates.append(candidate)
         raise marsh.errors.UnmarshalError(
             marsh.utils.get_closest_error_message(
-                value=name,
+                value=str(name),
                 candidates=candidates,
                 key='name',
             ),
-- 
2.43.0


From b3ec7e46e8a82718753c003cdcf1819366736f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 40/95] fix: unmarshal primitives to members of a string enum
 with an equal text

---
 marsh/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index 67ba0bf..b8e5f8f 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2119,6 +2119,8 @@ def cast_primitive(
         value = str_to_int(value)
     elif issubclass(type_, int) and isinstance(value, float):
         value = float_to_int(value)
+    elif issubclass(type_, str) and not isinstance(value, str):
+        value = str(value)
     return type_(value)
 
 
-- 
2.43.0


From de2bc00f186da0b6280b932785cd1f31d1ad9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:56 +0000
Subject: [PATCH 41/95] fix: keep the order of nested unions written as X | Y

---
 marsh/schema/core/unmarshal.py | 12 ++----------
 marsh/schema/types/union.py    |  4 +---
 marsh/utils.py                 | 20 +++++++++++++++++++-
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 4d1e787..1fdfa50 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -28,10 +28,6 @@ import marsh
 from . import base
 
 
-# python 3.10+
-UnionType: Any = getattr(types, 'UnionType', ())
-
-
 _T = TypeVar('_T')
 _RelativePriority: TypeAlias = \
     marsh.utils.PriorityOrder.RelativePriority[Type['UnmarshalSchema']]
@@ -63,10 +59,9 @@ def is_order_dependent(
     Returns:
         ``True`` if there is a union or literal, else ``False``.
     """
-    origin = get_origin(value)
-    if origin is Union or marsh.utils.is_literal(value):
+    if marsh.utils.is_union(value) or marsh.utils.is_literal(value):
         return True
-    if origin is None:
+    if get_origin(value) is None:
         return False
     return any(map(is_order_dependent, get_args(value)))
 
@@ -131,9 +126,6 @@ def resolve_type(
                 cache,
             )
             return resolve_type(value, cache)
-        if isinstance(value, UnionType):
-            # X | Y instead of Union[X, Y]
-            return Union[get_args(value)]  # pyright: ignore
     except marsh.errors.MarshError:
         raise
     except Exception:
diff --git a/marsh/schema/types/union.py b/marsh/schema/types/union.py
index b030b08..36ddb98 100644
--- a/marsh/schema/types/union.py
+++ b/marsh/schema/types/union.py
@@ -1,9 +1,7 @@
 from typing import (
     Any,
     TypeVar,
-    Union,
     get_args,
-    get_origin,
 )
 
 import marsh
@@ -36,7 +34,7 @@ class UnionUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
         value: Any,
     ) -> bool:
         return bool(
-            get_origin(value) is Union
+            marsh.utils.is_union(value)
             and get_args(value),
         )
 
diff --git a/marsh/utils.py b/marsh/utils.py
index b8e5f8f..e18812b 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1845,6 +1845,24 @@ def is_typing_alias(
     )
 
 
+def is_union(
+    type_: Any,
+) -> bool:
+    """Determine if a type is a union, ``Union[X, Y]`` or ``X | Y``.
+
+    Arguments:
+        type: The type to evaluate.
+
+    Returns:
+        ``True`` if value is a union of types, else ``False``.
+    """
+    return get_origin(type_) in (
+        Union,
+        # python 3.10+
+        getattr(types, 'UnionType', Union),
+    )
+
+
 def is_optional(
     type_: Any,
 ) -> bool:
@@ -1859,7 +1877,7 @@ def is_optional(
     """
     if is_annotated(type_):
         type_ = get_origin(type_)
-    return get_origin(type_) is Union \
+    return is_union(type_) \
         and type(None) in get_args(type_)
 
 
-- 
2.43.0


From d9e51a4addd4e9c2bfa79e96fd75535ee12855ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 42/95] fix: unmarshal typed dicts from sequences that leave
 out optional keys

---
 marsh/schema/types/typeddict.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 8685153..f5b4ca9 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -101,14 +101,8 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         *args,
         **kwargs,
     ) -> _T:
-        if args and not kwargs:
-            kwargs = {
-                key: value
-                for key, value
-                in zip(get_type_hints(self.value), args)
-            }
-            args = ()
-        mapping = dict(*args, **kwargs)
+        # values given by position are in the order of the schemas
+        mapping = dict(zip(self.schemas, args), **kwargs)
         for key, value in tuple(mapping.items()):
             if value is self._sentinel:
                 if key in self.optional_keys:
-- 
2.43.0


From 751e5f0f465d3be930560461301824ba67d24051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 43/95] fix: evaluate the annotations of callable objects and
 partials

---
 marsh/schema/template/callable.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index e6c50c2..5443d22 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -1,3 +1,4 @@
+import functools
 import inspect
 import types
 from typing import (
@@ -30,10 +31,14 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 f'failed to retrieve callable signature: {self.value}',
             )
         try:
-            if inspect.isclass(self.value):
-                annotations = get_type_hints(self.value.__init__)
-            else:
-                annotations = get_type_hints(self.value)
+            callable_ = self.value
+            while isinstance(callable_, functools.partial):
+                callable_ = callable_.func
+            if inspect.isclass(callable_):
+                callable_ = callable_.__init__
+            elif not inspect.isroutine(callable_):
+                callable_ = callable_.__call__
+            annotations = get_type_hints(callable_)
         except Exception:
             annotations = {}
         positional = {}
-- 
2.43.0


From 74ad4108ccb119d26de5db99fe2f88beb37f67d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:30 +0000
Subject: [PATCH 44/95] fix: do not mistake keyword-only arguments of a caller
 for positional ones

---
 marsh/schema/template/structured.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 29bfede..1e3ff63 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -62,6 +62,8 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     ) -> None:
         if args and kwargs:
             for i, name in enumerate(self.schemas):
+                if name.startswith('*') or name in self.keyword_only:
+                    break
                 if i < len(args) and name in kwargs:
                     raise TypeError(
                         'received the same argument twice '
-- 
2.43.0


From f29f20759332c9e674dca1557d77553a85766d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 45/95] fix: list the components of a namespace in the
 documentation of a type

---
 marsh/schema/types/namespace.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 9b7b6f9..6c1ad91 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -89,6 +89,15 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
             },
         )
 
+    def doc(
+        self,
+        depth: int = 0,
+    ) -> marsh.schema.UnmarshalSchema.Doc:
+        doc = super().doc(depth)
+        if depth > 0:
+            doc.special_fields = self.doc_special_fields()
+        return doc
+
     def doc_special_fields(
         self,
     ) -> Sequence[marsh.schema.UnmarshalSchema.Doc.SpecialField]:
-- 
2.43.0


From 75f7663e55b896543076749d5593b06b7ed7aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 46/95] fix: keep a priority order as it was when an addition
 is rejected

Contradicting priorities between two values are also detected when
another value hides them, instead of losing values in the next reload.
---
 marsh/utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index e18812b..5e85bbb 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1278,15 +1278,27 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
             )
 
             # does the value to be added already exist?
+            replaced = None
             for i in range(len(self._values)):
                 if self._values[i].value == wrapped.value:
                     if replace:
-                        del self._values[i]
+                        replaced = i
                         break
                     raise ValueError(
                         f'{wrapped} already exists.',
                     )
 
+            # raises an error for circular priorities between two values,
+            # before anything has been changed
+            for i, position in enumerate(self._values):
+                if i != replaced:
+                    wrapped.relative_priority.get_relation(
+                        position.relative_priority,
+                    )
+
+            if replaced is not None:
+                del self._values[replaced]
+
             # find insertion index for value based on priorities.
             # circular priorities with a length larger than 1 do
             # not raise an error.
-- 
2.43.0


From d9e1e0c32b8833365ad4a1df5751bb5f098aad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:53 +0000
Subject: [PATCH 47/95] fix: describe the fields of classes defined in
 functions or other classes

---
 marsh/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 5e85bbb..18dc861 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -9,6 +9,7 @@ import inspect
 import os
 import shutil
 import sys
+import textwrap
 import weakref
 import types
 import typing
@@ -2304,7 +2305,9 @@ def _get_attribute_description(
         except Exception:
             pass
     try:
-        ast_body = ast.parse(inspect.getsource(cls)).body[0].body  # type: ignore
+        # the source is indented when defined in a function or another class
+        source = textwrap.dedent(inspect.getsource(cls))
+        ast_body = ast.parse(source).body[0].body  # type: ignore
     except Exception:
         return None
     node_iter = iter(ast_body)
-- 
2.43.0


From 59febba0c081222b04bb019385f2a65397674080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:45 +0000
Subject: [PATCH 48/95] fix: do not describe named tuples by their generated
 docstring

---
 marsh/schema/types/namedtuple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index 38a2058..d284661 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -21,7 +21,7 @@ def is_generated_class_docstring(
     docstring: Optional[str],
 ) -> bool:
     if docstring:
-        return bool(re.match(r'^[a-zA-Z0-9_]+\(([a-zA-Z0-9_]+,)*\)$', docstring))
+        return bool(re.match(r'^\w+\((\w+(, \w+)*,?)?\)$', docstring))
     return False
 
 
-- 
2.43.0


From 682717e554951cfc497368295118e033ce808662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:27 +0000
Subject: [PATCH 49/95] fix: keep the order of a SafeDict when deleting a key
 which is not equal to itself

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 18dc861..cfb566f 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -608,7 +608,7 @@ class SafeDict(MutableMapping[_K, _V]):
                 # already kept by the underlying dict.
                 if self._unhashable_cache:
                     for key_idx, k in enumerate(self._hashable_cache):
-                        if k == key:
+                        if k is key or k == key:
                             self._remove_order(True, key_idx)
                             break
                 del self._hashable_cache[key]
-- 
2.43.0


From 8676b7c2a43be746ad6bcac0fbe2e73f2f4c3162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:27 +0000
Subject: [PATCH 50/95] fix: iterate over cached types while types are garbage
 collected

---
 marsh/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index cfb566f..64589ae 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1348,7 +1348,8 @@ class WeakTypeCache:
     ) -> Iterator[Any]:
         data = getattr(self._types, 'data', None)
         if isinstance(data, dict):
-            for ref in reversed(data):
+            # types may be garbage collected while iterating
+            for ref in reversed(tuple(data)):
                 type_ = ref()
                 if type_ is not None:
                     yield type_
-- 
2.43.0


From ae62038a69e7e48c2808bba5bd14400817f6b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:27 +0000
Subject: [PATCH 51/95] fix: compare a SafeDict with unhashable keys

---
 marsh/utils.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index 64589ae..d3ae9c8 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -663,6 +663,22 @@ class SafeDict(MutableMapping[_K, _V]):
     ) -> int:
         return len(self._hashable_cache) + len(self._unhashable_cache)
 
+    def __eq__(
+        self,
+        other,
+    ) -> bool:
+        if not isinstance(other, collections.abc.Mapping):
+            return NotImplemented
+        if len(self) != len(other):
+            return False
+        for key, value in self.items():
+            try:
+                if other[key] != value:
+                    return False
+            except (KeyError, TypeError):
+                return False
+        return True
+
     def __reversed__(
         self,
     ) -> Iterator[_K]:
-- 
2.43.0


From f9e6b7f9ad73ad20357d1760ec3f9abdb70909c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 52/95] fix: unmarshal marshaled datetimes with any offset from
 UTC

---
 marsh/schema/types/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index e481aec..ba25015 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -139,7 +139,10 @@ class DatetimeUnmarshalSchema(
             )
         except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
-                dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
+                try:
+                    dt = datetime.datetime.fromisoformat(element)
+                except ValueError:
+                    dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
             raise marsh.errors.UnmarshalError(
                 'failed to parse timestamp',
-- 
2.43.0


From 3d2616295a0707df7e5a2c247684790a30d4d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 53/95] fix: unmarshal to instances of subclasses of bytes

---
 marsh/schema/types/bytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/bytes.py b/marsh/schema/types/bytes.py
index b44bb9f..1089f4a 100644
--- a/marsh/schema/types/bytes.py
+++ b/marsh/schema/types/bytes.py
@@ -93,7 +93,7 @@ class BytesUnmarshalSchema(marsh.schema.UnmarshalSchema[bytes]):
                 type=self.value,
             )
         try:
-            return marsh.utils.base64_to_bytes(str(element))
+            return self.value(marsh.utils.base64_to_bytes(str(element)))
         except Exception:
             raise marsh.errors.UnmarshalError(
                 'failed to unmarshal bytes',
-- 
2.43.0


From d38d920d346596d00dee7c46b4c67d8cbeea3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 54/95] fix: unmarshal to instances of subclasses of complex

---
 marsh/schema/types/complex.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/types/complex.py b/marsh/schema/types/complex.py
index 17d073d..1be29ef 100644
--- a/marsh/schema/types/complex.py
+++ b/marsh/schema/types/complex.py
@@ -124,8 +124,16 @@ class ComplexUnmarshalSchema(marsh.schema.UnmarshalSchema[complex]):
                 element=element,
                 type=self.value,
             )
-        if isinstance(arg, float):
-            return complex(arg)
-        if marsh.utils.is_sequence(arg):
-            return complex(*arg)
-        return complex(**arg)  # type: ignore
+        type_ = complex if self.value is numbers.Complex else self.value
+        try:
+            if isinstance(arg, float):
+                return type_(arg)
+            if marsh.utils.is_sequence(arg):
+                return type_(*arg)
+            return type_(**arg)  # type: ignore
+        except Exception as err:
+            raise marsh.errors.UnmarshalError(
+                f'failed to construct: {err}',
+                element=element,
+                type=self.value,
+            ) from err
-- 
2.43.0


From 3d023cb708aa136adc15e54dce0bfa6be016ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 55/95] fix: keep the offset from UTC of an unmarshaled time

---
 marsh/schema/types/datetime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index ba25015..4df7b77 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -139,6 +139,11 @@ class DatetimeUnmarshalSchema(
             )
         except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
+                if issubclass(self.value, datetime.time):
+                    try:
+                        return self.value.fromisoformat(element)
+                    except ValueError:
+                        pass
                 try:
                     dt = datetime.datetime.fromisoformat(element)
                 except ValueError:
-- 
2.43.0


From 1fa8b66764ab90d97ff64c495af39e59e9c7d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 56/95] fix: unmarshal to instances of subclasses of datetime
 and time

---
 marsh/schema/types/datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 4df7b77..7396e65 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -156,5 +156,9 @@ class DatetimeUnmarshalSchema(
             )
         if self.value == datetime.time:
             return dt.time()
+        if issubclass(self.value, datetime.time):
+            return self.value(dt.hour, dt.minute, dt.second, dt.microsecond)
+        if issubclass(self.value, datetime.datetime):
+            return self.value.combine(dt.date(), dt.timetz())
         # datetime is subclass of date
         return dt
-- 
2.43.0


From 0f11a44a113dffccdc7e8630055c06e890864efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 57/95] fix: report an invalid logging level with the logger
 type

---
 marsh/schema/types/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/logger.py b/marsh/schema/types/logger.py
index 8bad6a9..68b56ec 100644
--- a/marsh/schema/types/logger.py
+++ b/marsh/schema/types/logger.py
@@ -123,6 +123,6 @@ class LoggerUnmarshalSchema(marsh.schema.UnmarshalSchema[logging.Logger]):
                 raise marsh.errors.UnmarshalError(
                     f'could not set logging level to "{arg["level"]}"',
                     element=element,
-                    type=type,
+                    type=self.value,
                 )
         return logger
-- 
2.43.0


From 9e682573d420395113a79e667bbdc122f9800ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 58/95] fix: unmarshal loggers whose names look like numbers

---
 marsh/schema/types/logger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/logger.py b/marsh/schema/types/logger.py
index 68b56ec..11dc221 100644
--- a/marsh/schema/types/logger.py
+++ b/marsh/schema/types/logger.py
@@ -113,7 +113,10 @@ class LoggerUnmarshalSchema(marsh.schema.UnmarshalSchema[logging.Logger]):
         if isinstance(arg, str):
             return logging.getLogger(arg)
         if 'name' in arg:
-            logger = logging.getLogger(str(arg['name']))
+            # `arg` may hold the name as an integer ('007' -> 7)
+            logger = logging.getLogger(
+                marsh.unmarshal(str, element['name']),  # type: ignore
+            )
         else:
             logger = logging.getLogger()
         if 'level' in arg:
-- 
2.43.0


From 6e240b68d4e0992396832aa784e6bbc54ae2e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 59/95] fix: marshal slices of arbitrary objects into plain
 data

---
 marsh/schema/types/slice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index 7c8d3c7..dd52ad3 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -43,9 +43,9 @@ class SliceMarshalSchema(marsh.schema.MarshalSchema):
         self,
     ) -> marsh.element.MappingElementType:
         return dict(
-            start=self.value.start,
-            stop=self.value.stop,
-            step=self.value.step,
+            start=marsh.marshal(self.value.start),
+            stop=marsh.marshal(self.value.stop),
+            step=marsh.marshal(self.value.step),
         )
 
 
-- 
2.43.0


From 27abd0ca1db3ebc5e9b1213337caca945d09507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 60/95] fix: keep the annotations of fields of named tuples and
 typed dicts and of fields annotated by a string

---
 marsh/schema/core/unmarshal.py    |  3 +-
 marsh/schema/template/callable.py |  3 +-
 marsh/schema/types/dataclass.py   |  5 +--
 marsh/schema/types/namedtuple.py  |  3 +-
 marsh/schema/types/typeddict.py   |  6 +++-
 marsh/utils.py                    | 53 +++++++++++++++++++++++++++++++
 6 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 1fdfa50..68929f1 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -19,7 +19,6 @@ from typing import (
     Union,
     get_args,
     get_origin,
-    get_type_hints,
     overload,
 )
 from typing_extensions import TypeAlias
@@ -70,7 +69,7 @@ def evaluate_forward_ref(
     ref: ForwardRef,
     module: str,
 ) -> Any:
-    return get_type_hints(
+    return marsh.utils.resolve_type_hints(
         types.SimpleNamespace(__annotations__={'ref': ref}),
         vars(importlib.import_module(module)),
     )['ref']
diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 5443d22..50e2f2d 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -5,7 +5,6 @@ from typing import (
     Any,
     ForwardRef,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -38,7 +37,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 callable_ = callable_.__init__
             elif not inspect.isroutine(callable_):
                 callable_ = callable_.__call__
-            annotations = get_type_hints(callable_)
+            annotations = marsh.utils.resolve_type_hints(callable_)
         except Exception:
             annotations = {}
         positional = {}
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index dcfab26..3aa4b03 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -7,7 +7,6 @@ from typing import (
     Optional,
     Tuple,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -94,7 +93,9 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         try:
-            annotations = get_type_hints(marsh.utils.get_type(self.value))
+            annotations = marsh.utils.resolve_type_hints(
+                marsh.utils.get_type(self.value),
+            )
         except Exception:
             annotations = {}
         schemas = {}
diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index d284661..a2a7600 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     Optional,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -73,7 +72,7 @@ class NamedTupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[
     ) -> None:
         super().__init__(*args, **kwargs)
         schemas = {}
-        annotations = get_type_hints(self.value)
+        annotations = marsh.utils.resolve_type_hints(self.value)
         for field in self.value._fields:
             with marsh.errors.prepend(field):
                 schemas[field] = marsh.schema.UnmarshalSchema(
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index f5b4ca9..7bd590d 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -58,7 +58,11 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         self._sentinel = _Sentinel()
-        annotations = get_type_hints(self.value)
+        annotations = {
+            name: marsh.utils.strip_type_qualifiers(type_)
+            for name, type_
+            in marsh.utils.resolve_type_hints(self.value).items()
+        }
         self.schemas = types.MappingProxyType(
             {
                 **{
diff --git a/marsh/utils.py b/marsh/utils.py
index d3ae9c8..4daa531 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -60,6 +60,7 @@ _LiteralTypes: list = []
 _LiteralStringTypes: list = []
 _TypeAliasTypes: list = []
 _IsTypedDict: list = []
+_Qualifiers: list = []
 
 
 for module in (typing, typing_extensions):
@@ -70,6 +71,9 @@ for module in (typing, typing_extensions):
         ('LiteralString', _LiteralStringTypes),
         ('TypeAlias', _TypeAliasTypes),
         ('is_typeddict', _IsTypedDict),
+        ('Required', _Qualifiers),
+        ('NotRequired', _Qualifiers),
+        ('ReadOnly', _Qualifiers),
     ):
         try:
             container.append(getattr(module, attr))
@@ -1797,6 +1801,55 @@ def get_annotations(
     return typing_extensions.get_args(value)[1:]
 
 
+def resolve_type_hints(
+    value: Any,
+    globalns: Optional[Dict[str, Any]] = None,
+) -> Dict[str, Any]:
+    """Get the type hints of a class or function with any
+    forward references being evaluated.
+
+    Compared to :func:`typing.get_type_hints` any use of
+    :data:`typing.Annotated` is kept.
+
+    Arguments:
+        value: The class or function.
+        globalns: The namespace in which forward references
+            are evaluated. Defaults to the namespace of
+            the module in which the value is defined.
+
+    Returns:
+        The type hints.
+    """
+    return typing_extensions.get_type_hints(
+        value,
+        globalns,
+        include_extras=True,
+    )
+
+
+def strip_type_qualifiers(
+    value: Any,
+) -> Any:
+    """Remove qualifiers of typed dict keys, such
+    as :data:`typing.Required`, from a type.
+
+    Arguments:
+        value: The type.
+
+    Returns:
+        The type without qualifiers.
+    """
+    if is_annotated(value):
+        type_, *annotations = typing_extensions.get_args(value)
+        stripped = strip_type_qualifiers(type_)
+        if stripped is type_:
+            return value
+        return Annotated[(stripped, *annotations)]  # type: ignore
+    if any(typing_extensions.get_origin(value) is qualifier for qualifier in _Qualifiers):
+        return strip_type_qualifiers(typing_extensions.get_args(value)[0])
+    return value
+
+
 def is_protocol(
     value: Any,
 ) -> bool:
-- 
2.43.0


From 446b1626ee91f66fd40fa4afa9e0dfff2b7905ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 61/95] fix: evaluate nested forward references in the module
 of the class using them

---
 marsh/schema/template/callable.py | 17 ++++----
 marsh/schema/types/dataclass.py   | 29 ++++---------
 marsh/utils.py                    | 70 ++++++++++++++++++++++++++++---
 3 files changed, 83 insertions(+), 33 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 50e2f2d..8085637 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -33,11 +33,16 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             callable_ = self.value
             while isinstance(callable_, functools.partial):
                 callable_ = callable_.func
+            owner = None
             if inspect.isclass(callable_):
+                owner = callable_
                 callable_ = callable_.__init__
             elif not inspect.isroutine(callable_):
                 callable_ = callable_.__call__
-            annotations = marsh.utils.resolve_type_hints(callable_)
+            annotations = marsh.utils.resolve_type_hints(
+                callable_,
+                owner=owner,
+            )
         except Exception:
             annotations = {}
         positional = {}
@@ -46,13 +51,11 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         var_positional = None
         var_keyword = None
         for name, param in sig.parameters.items():
-            if (
-                param.annotation is param.empty
-                or isinstance(param.annotation, (str, ForwardRef))
-            ):
+            type_ = param.annotation
+            if type_ is param.empty or isinstance(type_, (str, ForwardRef)):
                 type_ = annotations.get(name, Any)
-            else:
-                type_ = param.annotation
+            elif marsh.utils.has_forward_ref(type_):
+                type_ = annotations.get(name, type_)
             default = marsh.MISSING
             if param.default is not param.empty:
                 default = param.default
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 3aa4b03..5ca2e15 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -3,7 +3,6 @@ import re
 import types
 from typing import (
     Any,
-    ForwardRef,
     Optional,
     Tuple,
     TypeVar,
@@ -101,29 +100,17 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         schemas = {}
 
         def resolve_type(
-            type_: Any,
+            field: dataclasses.Field,
         ) -> Any:
-            try:
-                if isinstance(type_, (str, ForwardRef)):
-                    type_ = annotations.get(field.name, type_)
-            except Exception:
-                pass
-            type_is_str = False
-            try:
-                type_is_str = isinstance(type_, str)
-            except Exception:
-                pass
-            if type_is_str:
+            type_ = field.type
+            if marsh.utils.has_forward_ref(type_):
+                type_ = annotations.get(field.name, type_)
+            if isinstance(type_, dataclasses.InitVar):
+                type_ = type_.type
+            if isinstance(type_, str):
                 raise marsh.errors.MarshError(
                     f'failed to resolve type from string: "{type_}"',
                 )
-            type_is_initvar = False
-            try:
-                type_is_initvar = isinstance(type_, dataclasses.InitVar)
-            except Exception:
-                pass
-            if type_is_initvar:
-                return resolve_type(type_.type)
             return type_
 
         order = list(getattr(self.value, _FIELDS))
@@ -143,7 +130,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             if not field.init:
                 continue
             with marsh.errors.prepend(field.name):
-                type_ = resolve_type(field.type)
+                type_ = resolve_type(field)
                 schemas[field.name] = marsh.schema.UnmarshalSchema(
                     type_,
                     default=(
diff --git a/marsh/utils.py b/marsh/utils.py
index 4daa531..22639d0 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -21,6 +21,7 @@ from typing import (
     DefaultDict,
     Dict,
     Final,
+    ForwardRef,
     Generic,
     Iterable,
     Iterator,
@@ -1801,9 +1802,33 @@ def get_annotations(
     return typing_extensions.get_args(value)[1:]
 
 
+def has_forward_ref(
+    value: Any,
+) -> bool:
+    """Determine if a type holds any unevaluated forward references.
+
+    Arguments:
+        value: The type.
+
+    Returns:
+        ``True`` if the type is, or is parametrized by,
+        a forward reference, else ``False``.
+    """
+    if isinstance(value, (str, ForwardRef)):
+        return True
+    if isinstance(value, dataclasses.InitVar):
+        return has_forward_ref(value.type)
+    if is_literal(value):
+        return False
+    if is_annotated(value):
+        return has_forward_ref(typing_extensions.get_args(value)[0])
+    return any(map(has_forward_ref, get_args(value)))
+
+
 def resolve_type_hints(
     value: Any,
     globalns: Optional[Dict[str, Any]] = None,
+    owner: Any = None,
 ) -> Dict[str, Any]:
     """Get the type hints of a class or function with any
     forward references being evaluated.
@@ -1816,15 +1841,50 @@ def resolve_type_hints(
         globalns: The namespace in which forward references
             are evaluated. Defaults to the namespace of
             the module in which the value is defined.
+        owner: The class of the value if it is a method. It may
+            be referred to by its name even if it is not defined
+            at the top level of its module, which is true for
+            the value itself as well if it is a class.
 
     Returns:
         The type hints.
     """
-    return typing_extensions.get_type_hints(
-        value,
-        globalns,
-        include_extras=True,
-    )
+    if inspect.isclass(value):
+        owner = value
+        localns = None
+    else:
+        # without a separate namespace the type of an evaluated
+        # forward reference is reused by other modules
+        localns = {}
+    try:
+        hints = typing_extensions.get_type_hints(
+            value,
+            globalns,
+            localns,
+            include_extras=True,
+        )
+    except NameError:
+        if owner is None:
+            raise
+        hints = typing_extensions.get_type_hints(
+            value,
+            globalns,
+            {owner.__name__: owner},
+            include_extras=True,
+        )
+    for name, hint in hints.items():
+        if isinstance(hint, dataclasses.InitVar):
+            # the parameter is not evaluated
+            hints[name] = hint.type
+            for cls in getattr(value, '__mro__', ()):
+                if name in vars(cls).get('__annotations__', ()):
+                    hints[name] = resolve_type_hints(
+                        types.SimpleNamespace(__annotations__={name: hint.type}),
+                        vars(sys.modules[cls.__module__]),
+                        owner=owner,
+                    )[name]
+                    break
+    return hints
 
 
 def strip_type_qualifiers(
-- 
2.43.0


From fd63e4f60604852b36468a559b391f7e59bd1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 62/95] fix: do not share schemas of forward references to
 equally named types

---
 marsh/schema/core/unmarshal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 68929f1..bfa5f0a 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -256,9 +256,15 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if args or kwargs or is_order_dependent(value):
+        if (
+            args
+            or kwargs
+            or is_order_dependent(value)
+            or marsh.utils.has_forward_ref(value)
+        ):
             # values that compare equal are not always interchangeable, such
-            # as unions of a different order or the default values 1 and True
+            # as unions of a different order, the default values 1 and True
+            # or references to types of the same name
             return cls._build(
                 value=value,
                 *args,
-- 
2.43.0


From 001354498e3a1f83b4a2dc804f73516ccd0e1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 63/95] fix: unmarshal typed dicts defined in functions which
 refer to themselves

---
 marsh/schema/types/typeddict.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 7bd590d..5f9cfc9 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     Sequence,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -32,10 +31,10 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         if hasattr(self.value, '__required_keys__'):
             keys = self.value.__required_keys__  # type: ignore
         elif self.value.__total__:  # type: ignore
-            keys = frozenset(get_type_hints(self.value))
+            keys = frozenset(marsh.utils.resolve_type_hints(self.value))
         else:
             keys = frozenset()
-        ordered_keys = tuple(get_type_hints(self.value))
+        ordered_keys = tuple(marsh.utils.resolve_type_hints(self.value))
         return sorted(keys, key=lambda x: ordered_keys.index(x))
 
     @functools.cached_property
@@ -45,10 +44,10 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         if hasattr(self.value, '__optional_keys__'):
             keys = self.value.__optional_keys__  # type: ignore
         elif not self.value.__total__:  # type: ignore
-            keys = frozenset(get_type_hints(self.value))
+            keys = frozenset(marsh.utils.resolve_type_hints(self.value))
         else:
             keys = frozenset()
-        ordered_keys = tuple(get_type_hints(self.value))
+        ordered_keys = tuple(marsh.utils.resolve_type_hints(self.value))
         return sorted(keys, key=lambda x: ordered_keys.index(x))
 
     def __init__(
-- 
2.43.0


From b45545508bfa62f401d716cf3c30b078823d18e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 64/95] fix: resolve dotted forward references to recursive
 aliases

---
 marsh/schema/core/unmarshal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index bfa5f0a..322956c 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -86,6 +86,12 @@ def resolve_forward_ref(
     if mod:
         try:
             return evaluate_forward_ref(ForwardRef(name), mod)
+        except NameError:
+            try:
+                # references from within the type are resolved on their own
+                return getattr(importlib.import_module(mod), name)
+            except AttributeError:
+                pass
         except Exception:
             pass
     for type_ in cache:
-- 
2.43.0


From c9251d02a7c55f8dfc91d5d75d6431d51e40f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 65/95] fix: end the unmarshaling of missing values of
 recursive types

---
 marsh/schema/core/unmarshal.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 322956c..9590403 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -702,6 +702,9 @@ class WrapperUnmarshalSchema(
 
 class RecursiveReferenceUnmarshalSchema(WrapperUnmarshalSchema):
 
+    _missing: threading.local = threading.local()
+    """The types that are being unmarshaled from a missing value."""
+
     def __str__(
         self,
     ) -> str:
@@ -724,3 +727,20 @@ class RecursiveReferenceUnmarshalSchema(WrapperUnmarshalSchema):
             default=self.schema.doc_default(),
             description=self.schema.doc_description(),
         )
+
+    def unmarshal(
+        self,
+        element: marsh.element.ElementType,
+    ) -> Any:
+        if not marsh.utils.is_missing(element) or self.has_default():
+            return super().unmarshal(element)
+        # A value that is missing holds nothing but missing values, so
+        # a type that needs a value of itself would never come to an end.
+        types_ = vars(self._missing).setdefault('types', [])
+        if any(type_ is self.value for type_ in types_):
+            raise marsh.errors.MissingValueError(type=self.value)
+        types_.append(self.value)
+        try:
+            return super().unmarshal(element)
+        finally:
+            types_.pop()
-- 
2.43.0


From f079d69946a4a1ab89fe66d6275b9cbbd73ffc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 66/95] fix: do not cache recursive references in place of a
 type that failed to resolve

---
 marsh/schema/core/unmarshal.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 9590403..c69ae79 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -262,6 +262,13 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
+        recursive_cache = cls._recursive_cache[threading.get_ident()]
+        if recursive_cache:
+            # must not be cached in place of the type itself
+            try:
+                return recursive_cache[value].build(value, *args, **kwargs)
+            except KeyError:
+                pass
         if (
             args
             or kwargs
@@ -294,11 +301,6 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         except TypeError:
             pass
         recursive_cache = cls._recursive_cache[threading.get_ident()]
-        if recursive_cache:
-            try:
-                return recursive_cache[value].build(value, *args, **kwargs)
-            except KeyError:
-                pass
         result = cls.registry.match(value)
         recursive_cache[value] = base.SchemaSelection(
             (RecursiveReferenceUnmarshalSchema, *result),
-- 
2.43.0


From f919634a1dff27b2a39824ece0fe67058441dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 67/95] fix: tell missing values and defaults apart by identity
 instead of by their own equality

---
 marsh/schema/types/dataclass.py | 4 ++--
 marsh/utils.py                  | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 5ca2e15..71f6312 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -135,12 +135,12 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                     type_,
                     default=(
                         marsh.MISSING
-                        if field.default == dataclasses.MISSING
+                        if field.default is dataclasses.MISSING
                         else field.default
                     ),
                     default_factory=(
                         marsh.MISSING
-                        if field.default_factory == dataclasses.MISSING
+                        if field.default_factory is dataclasses.MISSING
                         else field.default_factory
                     ),
                 )
diff --git a/marsh/utils.py b/marsh/utils.py
index 22639d0..0c5362b 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1423,7 +1423,13 @@ def is_missing(
     Returns:
         ``True`` if missing, else ``False``.
     """
-    return value in (omegaconf.MISSING, dataclasses.MISSING)
+    if value is dataclasses.MISSING:
+        return True
+    # other types may define equality in any way
+    return (
+        isinstance(value, (str, omegaconf.Node))
+        and value == omegaconf.MISSING
+    )
 
 
 def is_sequence(
-- 
2.43.0


From 04c9b85589385ca60ae18d1af99816651886bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 68/95] fix: report interpolation errors of the command line as
 a message

---
 marsh/entry_point.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index f497752..43856e2 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -16,6 +16,8 @@ from typing import (
     Sequence,
 )
 
+import omegaconf
+
 import marsh
 import marsh.doc
 import marsh.parse
@@ -313,7 +315,18 @@ class EntryPoint:
             print(f'failed to load configuration: {error.pretty(True)}')
             sys.exit(1)
 
-        with marsh.errors.maybe_handle_error(handle_load_config_error):
+        def handle_interpolation_error(
+            error: Exception,
+        ) -> None:
+            print(f'failed to resolve configuration: {error}')
+            sys.exit(1)
+
+        with marsh.errors.maybe_handle_error(
+            handle_load_config_error,
+        ), marsh.errors.maybe_handle_error(
+            handle_interpolation_error,
+            omegaconf.errors.OmegaConfBaseException,
+        ):
             config = self.load_config(cmd_args)
 
         with self.maybe_change_cwd(cmd_args):
-- 
2.43.0


From 77a9fe7caf2b77b12209a9cb854b2d8be0b7b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 69/95] fix: iterate over a lazily stored iterator from several
 threads

---
 marsh/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 0c5362b..d92a578 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -10,6 +10,7 @@ import os
 import shutil
 import sys
 import textwrap
+import threading
 import weakref
 import types
 import typing
@@ -1003,18 +1004,20 @@ class IterableFromIterator(Generic[_T]):
     ) -> None:
         self._iter = iter(iterator)
         self._cache: list = []
+        self._lock = threading.RLock()
 
     def __iter__(
         self,
     ) -> Iterator[_T]:
         index = 0
         while True:
-            if index == len(self._cache):
-                try:
-                    item = next(self._iter)
-                except StopIteration:
-                    return
-                self._cache.append(item)
+            with self._lock:
+                if index == len(self._cache):
+                    try:
+                        item = next(self._iter)
+                    except StopIteration:
+                        return
+                    self._cache.append(item)
             yield self._cache[index]
             index += 1
 
-- 
2.43.0


From 59e1599ba152b34ada8c0327ba72466c8043ebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 70/95] fix: default values of defaultdicts in several threads

---
 marsh/schema/types/defaultdict.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index f17ad97..dffb26f 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -30,12 +30,14 @@ class InitType(Generic[_T]):
     ) -> _T:
         if self.input is not self._sentinel:
             return self.schema.unmarshal(self.input)
-        for self.input in (marsh.MISSING, 0, '', None):
+        for element in (marsh.MISSING, 0, '', None):
             try:
-                return self.schema.unmarshal(self.input)
+                value = self.schema.unmarshal(element)
             except Exception:
-                pass
-        self.input = self._sentinel
+                continue
+            # other threads must not see elements that do not work
+            self.input = element
+            return value
         raise marsh.errors.MarshError(
             'could not automatically initialize the type '
             f'{self.schema.doc_type()}',
-- 
2.43.0


From 5493563c3fed862c526e184fd4d93775c4d2571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 71/95] fix: deep copies of unmarshaled defaultdicts

---
 marsh/schema/types/defaultdict.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index dffb26f..b482aac 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -2,6 +2,7 @@ import collections
 from typing import (
     Any,
     Callable,
+    Dict,
     Generic,
     Mapping,
     TypeVar,
@@ -25,6 +26,13 @@ class InitType(Generic[_T]):
         self.schema = schema
         self.input: marsh.element.ElementType = self._sentinel
 
+    def __deepcopy__(
+        self,
+        memo: Dict[int, Any],
+    ) -> 'InitType[_T]':
+        # only depends on the type, so copies of a value can share it
+        return self
+
     def __call__(
         self,
     ) -> _T:
-- 
2.43.0


From c2e96044358797d7a0e161f8ec379dd149c57d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 72/95] fix: mark references of recursive types within wrapped
 schemas as recursive

---
 marsh/schema/core/unmarshal.py | 72 +++++++++++++++++++++++++++++++---
 1 file changed, 66 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index c69ae79..4b51941 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -1,4 +1,5 @@
 import collections
+import contextlib
 import dataclasses
 import importlib
 import threading
@@ -10,10 +11,13 @@ from typing import (
     ForwardRef,
     Generic,
     Iterable,
+    Iterator,
+    List,
     Mapping,
     NamedTuple,
     Optional,
     Sequence,
+    Tuple,
     Type,
     TypeVar,
     Union,
@@ -230,6 +234,11 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         ],
     ] = collections.defaultdict(marsh.utils.ValueCache)
 
+    _recursive_types: DefaultDict[
+        int,
+        List[Tuple[Any, base.SchemaSelection]],
+    ] = collections.defaultdict(list)
+
     type_cache: marsh.utils.WeakTypeCache = \
         marsh.utils.WeakTypeCache(skip_types=skip_cache_types)
 
@@ -242,6 +251,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
     ) -> None:
         metacls._recursive_cache = \
             collections.defaultdict(marsh.utils.ValueCache)
+        metacls._recursive_types = collections.defaultdict(list)
         metacls.type_cache = \
             marsh.utils.WeakTypeCache(skip_types=skip_cache_types)
         if (
@@ -300,16 +310,33 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             metacls.type_cache.add(value)
         except TypeError:
             pass
-        recursive_cache = cls._recursive_cache[threading.get_ident()]
         result = cls.registry.match(value)
-        recursive_cache[value] = base.SchemaSelection(
-            (RecursiveReferenceUnmarshalSchema, *result),
-        )
-        try:
+        with cls._building((value, result)):
             return result.build(value, *args, **kwargs)
+
+    @contextlib.contextmanager
+    def _building(
+        cls,  # noqa: B902
+        *types_: Tuple[Any, base.SchemaSelection],
+    ) -> Iterator[None]:
+        recursive_cache = cls._recursive_cache[threading.get_ident()]
+        recursive_types = cls._recursive_types[threading.get_ident()]
+        size = len(recursive_types)
+        try:
+            for value, selection in types_:
+                try:
+                    recursive_cache[value]
+                except KeyError:
+                    recursive_cache[value] = base.SchemaSelection(
+                        (RecursiveReferenceUnmarshalSchema, *selection),
+                    )
+                    recursive_types.append((value, selection))
+            yield
         finally:
             # only references from within the type itself are recursive
-            del recursive_cache[value]
+            for value, _ in recursive_types[size:]:
+                del recursive_cache[value]
+            del recursive_types[size:]
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
@@ -334,6 +361,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         cls.registry.cache_clear()
         cls._cached_build.cache_clear()  # type: ignore
         cls._recursive_cache.clear()
+        cls._recursive_types.clear()
         cls.type_cache.clear()
 
     def cache_info(
@@ -634,6 +662,8 @@ class WrapperUnmarshalSchema(
     base.WrapperSchema[UnmarshalSchema[_T]],
 ):
 
+    _outer_types: Tuple[Tuple[Any, base.SchemaSelection], ...] = ()
+
     def __init__(
         self,
         *args,
@@ -641,6 +671,27 @@ class WrapperUnmarshalSchema(
     ) -> None:
         super().__init__(*args, **kwargs)
         base.WrapperSchema.__init__(self, *args, **kwargs)
+        # the wrapped schema is built later, but its references
+        # to the types being built now are recursive nonetheless
+        self._outer_types = tuple(
+            UnmarshalSchema._recursive_types[threading.get_ident()],
+        )
+
+    @property
+    def schema(
+        self,
+    ) -> UnmarshalSchema[_T]:
+        if getattr(self, '_schema', None) is None:
+            with UnmarshalSchema._building(*self._outer_types):
+                return base.WrapperSchema.schema.fget(self)
+        return self._schema
+
+    @schema.setter
+    def schema(
+        self,
+        value: UnmarshalSchema[_T],
+    ) -> None:
+        self._schema = value
 
     def __str__(
         self,
@@ -707,6 +758,15 @@ class RecursiveReferenceUnmarshalSchema(WrapperUnmarshalSchema):
     _missing: threading.local = threading.local()
     """The types that are being unmarshaled from a missing value."""
 
+    def __init__(
+        self,
+        *args,
+        **kwargs,
+    ) -> None:
+        super().__init__(*args, **kwargs)
+        # leads back to the schema of the type itself
+        self._outer_types = ()
+
     def __str__(
         self,
     ) -> str:
-- 
2.43.0


From d164edc16678f4dd69b8faadb5ab14f95a58da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 73/95] fix: end the unmarshaling of missing values of
 recursive components in time

Components of a namespace or fields of types that need each other
were unmarshaled again and again from a missing value, not only
those that are reached through a recursive reference.
---
 marsh/schema/core/unmarshal.py      | 20 --------------------
 marsh/schema/template/structured.py | 29 ++++++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 4b51941..c302797 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -755,9 +755,6 @@ class WrapperUnmarshalSchema(
 
 class RecursiveReferenceUnmarshalSchema(WrapperUnmarshalSchema):
 
-    _missing: threading.local = threading.local()
-    """The types that are being unmarshaled from a missing value."""
-
     def __init__(
         self,
         *args,
@@ -789,20 +786,3 @@ class RecursiveReferenceUnmarshalSchema(WrapperUnmarshalSchema):
             default=self.schema.doc_default(),
             description=self.schema.doc_description(),
         )
-
-    def unmarshal(
-        self,
-        element: marsh.element.ElementType,
-    ) -> Any:
-        if not marsh.utils.is_missing(element) or self.has_default():
-            return super().unmarshal(element)
-        # A value that is missing holds nothing but missing values, so
-        # a type that needs a value of itself would never come to an end.
-        types_ = vars(self._missing).setdefault('types', [])
-        if any(type_ is self.value for type_ in types_):
-            raise marsh.errors.MissingValueError(type=self.value)
-        types_.append(self.value)
-        try:
-            return super().unmarshal(element)
-        finally:
-            types_.pop()
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 1e3ff63..79d64d0 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -1,6 +1,9 @@
+import contextlib
+import threading
 from typing import (
     Any,
     Dict,
+    Iterator,
     List,
     Mapping,
     Optional,
@@ -34,6 +37,9 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     keyword_only: Sequence[str] = ()
     """Names of attributes that can only be used as keyword arguments."""
 
+    _missing: threading.local = threading.local()
+    """The types that are being unmarshaled from a missing value."""
+
     def __str__(
         self,
     ) -> str:
@@ -158,6 +164,21 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                 fields[name].doc.default = default
         return fields
 
+    @contextlib.contextmanager
+    def _unmarshaling_missing(
+        self,
+    ) -> Iterator[None]:
+        # A value that is missing holds nothing but missing values, so
+        # a type that needs a value of itself would never come to an end.
+        types = vars(self._missing).setdefault('types', [])
+        if any(type_ is self.value for type_ in types):
+            raise marsh.errors.MissingValueError(type=self.value)
+        types.append(self.value)
+        try:
+            yield
+        finally:
+            types.pop()
+
     def unmarshal(
         self,
         element: marsh.element.ElementType,
@@ -167,7 +188,13 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            element = {}
+            with self._unmarshaling_missing():
+                return StructuredUnmarshalSchema.unmarshal(
+                    self,
+                    {},
+                    default_args=default_args,
+                    default_kwargs=default_kwargs,
+                )
         element_list: List[Any] = []
         element_dict: Dict[str, Any] = {}
         args: List = []
-- 
2.43.0


From e0877596fd6de0946ccacfe86edab74c9c65733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 74/95] fix: report overrides which remove the root or name no
 config as errors

`~` raised a ValueError unless the configuration was empty, and `@[]`
raised a TypeError.
---
 marsh/parse.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index a438c99..da07a32 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -210,8 +210,11 @@ class DeleteValue(Override):
         **kwargs,
     ) -> marsh.element.ElementType:
         if not (
-            marsh.utils.is_mapping(element)
-            or marsh.utils.is_sequence(element)
+            marsh.path.split(self.path)
+            and (
+                marsh.utils.is_mapping(element)
+                or marsh.utils.is_sequence(element)
+            )
         ):
             raise marsh.errors.PathError(
                 'can not remove value for '
@@ -272,9 +275,15 @@ def override(
                 missing_err = 'expected `+@`, or `+=`'
         if peek(source) == '@':
             pop(source)
+            names = config_names(source)
+            if not names:
+                raise ParseError(
+                    'expected at least one config name',
+                    remaining=source,
+                )
             return SetConfig(
                 path=path,
-                names=config_names(source),
+                names=names,
                 combine=combine,
             )
         if peek(source) == '=':
-- 
2.43.0


From 0cbfe97ef6a80137b982c055d24097475b3717ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 75/95] fix: marshal the keys, bytes and paths of omegaconf
 containers

These containers support keys and values that are no plain data.
---
 marsh/schema/types/omegaconf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/types/omegaconf.py b/marsh/schema/types/omegaconf.py
index b56e40f..9789a11 100644
--- a/marsh/schema/types/omegaconf.py
+++ b/marsh/schema/types/omegaconf.py
@@ -1,7 +1,6 @@
 from typing import (
     Any,
     Union,
-    cast,
 )
 
 import omegaconf
@@ -39,8 +38,8 @@ class OmegaconfMarshalSchema(marsh.schema.MarshalSchema):
     def marshal(
         self,
     ) -> marsh.element.ElementType:
-        return cast(
-            marsh.element.ElementType,
+        # the keys and values of a container are not always plain data
+        return marsh.marshal(
             omegaconf.OmegaConf.to_container(
                 self.value,
                 enum_to_str=True,
-- 
2.43.0


From f8651df486269949e1ddd20ad7330e954e7583ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 76/95] fix: unmarshal the items of subclasses of typed sets to
 their type

`class Ids(Set[int])` kept its items as they were.
---
 marsh/schema/types/set.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/marsh/schema/types/set.py b/marsh/schema/types/set.py
index 1e466b3..92e0f2e 100644
--- a/marsh/schema/types/set.py
+++ b/marsh/schema/types/set.py
@@ -1,5 +1,6 @@
 from typing import (
     Any,
+    TypeVar,
     get_args,
     get_origin,
 )
@@ -20,6 +21,17 @@ class SetUnmarshalSchema(sequence.SequenceUnmarshalSchema):
         type_ = Any
         if (_args := get_args(self.value)):
             type_ = _args[0]
+        else:
+            # a subclass, i.e. `class Subclass(Set[int])`
+            for base in getattr(self.value, '__orig_bases__', ()):
+                _args = get_args(base)
+                if (
+                    _args
+                    and issubclass(marsh.utils.get_type(base), set)
+                    and not isinstance(_args[0], TypeVar)
+                ):
+                    type_ = _args[0]
+                    break
         self.value_schema = marsh.schema.UnmarshalSchema(type_)
 
     @classmethod
-- 
2.43.0


From ae91c00664d8adac34040a3a2ccbf4bd0d644e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 77/95] fix: keep the schema types which are given to a wrapper
 as an iterator

---
 marsh/schema/core/unmarshal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index c302797..7bf3cbb 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -670,6 +670,8 @@ class WrapperUnmarshalSchema(
         **kwargs,
     ) -> None:
         super().__init__(*args, **kwargs)
+        # may have been given as an iterator
+        kwargs['wrapped'] = self.wrapped
         base.WrapperSchema.__init__(self, *args, **kwargs)
         # the wrapped schema is built later, but its references
         # to the types being built now are recursive nonetheless
-- 
2.43.0


From 762505129f81a7a2e7517a44d5f71815fda33e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 78/95] fix: find the descriptions of fields which a typed dict
 inherits

---
 marsh/utils.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index d92a578..10407d4 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2473,6 +2473,20 @@ def _get_attribute_description(
     return None
 
 
+def _get_documented_bases(
+    cls,
+) -> Iterator[Any]:
+    if not is_typeddict_type(cls):
+        yield from inspect.getmro(cls)
+        return
+    # the bases of a typed dict are not part of its mro
+    yield cls
+    for base in getattr(cls, '__orig_bases__', ()):
+        base = get_type(base)
+        if is_typeddict_type(base):
+            yield from _get_documented_bases(base)
+
+
 def get_attribute_description(
     cls,
     name: str,
@@ -2489,7 +2503,7 @@ def get_attribute_description(
         The attribute description if found, else :data:`None`.
     """
     try:
-        for base in inspect.getmro(cls):
+        for base in _get_documented_bases(cls):
             if base == object:
                 continue
             descr = _get_attribute_description(
-- 
2.43.0


From 9437c130bcd7fb398a7c212ad41fda0bae8ad5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 79/95] fix: resolve the annotations of the constructor which a
 class is called with

---
 marsh/schema/template/callable.py | 34 ++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 8085637..2531fd8 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -3,7 +3,9 @@ import inspect
 import types
 from typing import (
     Any,
+    Callable,
     ForwardRef,
+    Type,
     TypeVar,
 )
 
@@ -14,6 +16,36 @@ from . import structured
 _T = TypeVar('_T')
 
 
+_builtin_types = (
+    types.WrapperDescriptorType,
+    types.MethodWrapperType,
+    types.ClassMethodDescriptorType,
+    types.BuiltinFunctionType,
+)
+
+
+def get_constructor(
+    cls: Type,
+) -> Callable:
+    """Get the function which the signature of a class is that of.
+
+    Arguments:
+        cls: The class.
+
+    Returns:
+        The function that receives the arguments to the class.
+    """
+    if not isinstance(type(cls).__call__, _builtin_types):
+        return type(cls).__call__
+    for base in cls.__mro__:
+        for name in ('__new__', '__init__'):
+            if name in vars(base):
+                function = getattr(cls, name)
+                if not isinstance(function, _builtin_types):
+                    return function
+    return cls.__init__
+
+
 class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
     """Unmarshals the arguments to a callable and uses them to call it."""
 
@@ -36,7 +68,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             owner = None
             if inspect.isclass(callable_):
                 owner = callable_
-                callable_ = callable_.__init__
+                callable_ = get_constructor(callable_)
             elif not inspect.isroutine(callable_):
                 callable_ = callable_.__call__
             annotations = marsh.utils.resolve_type_hints(
-- 
2.43.0


From 9d6c6f6dc04781959e9ba61b2a60ea48fa7ccf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 80/95] fix: substitute the type variables of generic
 containers and end for generic bases

Subclasses of partly parametrized, reordered or nested generic containers
(`class Matrix(List[List[T]])`, `Matrix[int]`) took their own arguments for
those of the container, and a `Generic` base led to infinite recursion.
---
 marsh/schema/types/set.py |  18 ++----
 marsh/utils.py            | 112 ++++++++++++++++++++++++++------------
 2 files changed, 80 insertions(+), 50 deletions(-)

diff --git a/marsh/schema/types/set.py b/marsh/schema/types/set.py
index 92e0f2e..386524a 100644
--- a/marsh/schema/types/set.py
+++ b/marsh/schema/types/set.py
@@ -1,7 +1,6 @@
 from typing import (
     Any,
     TypeVar,
-    get_args,
     get_origin,
 )
 
@@ -19,19 +18,10 @@ class SetUnmarshalSchema(sequence.SequenceUnmarshalSchema):
     ) -> None:
         super().__init__(*args, **kwargs)
         type_ = Any
-        if (_args := get_args(self.value)):
-            type_ = _args[0]
-        else:
-            # a subclass, i.e. `class Subclass(Set[int])`
-            for base in getattr(self.value, '__orig_bases__', ()):
-                _args = get_args(base)
-                if (
-                    _args
-                    and issubclass(marsh.utils.get_type(base), set)
-                    and not isinstance(_args[0], TypeVar)
-                ):
-                    type_ = _args[0]
-                    break
+        for args in marsh.utils.iterate_type_args(self.value, self.match):
+            if not isinstance(args[0], TypeVar):
+                type_ = args[0]
+                break
         self.value_schema = marsh.schema.UnmarshalSchema(type_)
 
     @classmethod
diff --git a/marsh/utils.py b/marsh/utils.py
index 10407d4..50d219c 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1468,7 +1468,7 @@ def is_sequence_type(
     Returns:
         ``True`` if value is a sequence type, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    if (origin := get_origin(value)) not in (None, value):
         return is_sequence_type(origin)
     try:
         return (
@@ -1565,7 +1565,7 @@ def is_mapping_type(
     Returns:
         ``True`` if value is a mapping, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    if (origin := get_origin(value)) not in (None, value):
         return is_mapping_type(origin)
     try:
         return (
@@ -2053,7 +2053,7 @@ def get_type(
     Returns:
         The type.
     """
-    if (origin := get_origin(value)) is not None:
+    if (origin := get_origin(value)) not in (None, value):
         return get_type(origin)
     if is_typing_alias(value):
         return value
@@ -2605,6 +2605,73 @@ def get_closest_error_message(
     return message
 
 
+def substitute_type_variables(
+    type_: Any,
+    alias: Any,
+) -> Any:
+    """Replace the type variables of a generic class by
+    the types which the class is parametrized by.
+
+    Arguments:
+        type_: A type that may be parametrized by type variables.
+        alias: The parametrized class, i.e. ``Class[int]``.
+
+    Returns:
+        The type without the type variables of the class.
+    """
+    parameters = getattr(get_origin(alias), '__parameters__', ())
+    if isinstance(type_, TypeVar):
+        return dict(zip(parameters, get_args(alias))).get(type_, type_)
+    if (
+        inspect.isclass(type_) and get_origin(type_) is None
+        or not set(parameters).intersection(getattr(type_, '__parameters__', ()))
+    ):
+        return type_
+    args = tuple(
+        substitute_type_variables(arg, alias)
+        for arg in type_.__args__
+    )
+    # unlike this, `type_[args]` might return a
+    # type with other, but equal, arguments
+    if hasattr(type_, 'copy_with'):
+        return type_.copy_with(args)
+    if is_union(type_):
+        return Union[args]  # pyright: ignore
+    return get_origin(type_)[args]  # type: ignore
+
+
+def iterate_type_args(
+    type_: Any,
+    is_kind: Callable[[Any], bool],
+) -> Iterator[Tuple[Any, ...]]:
+    """Iterate the arguments of a type and its bases.
+
+    The arguments of the bases come first, as those of
+    a generic class are the values of its type variables.
+
+    Arguments:
+        type_: The type.
+        is_kind: Which types to take into account.
+
+    Returns:
+        The arguments of each type that has any.
+    """
+    if is_annotated(type_):
+        type_ = typing_extensions.get_args(type_)[0]
+    if not is_kind(type_):
+        return
+    cls = get_type(type_)
+    parameters = getattr(cls, '__parameters__', ())
+    if all(isinstance(parameter, TypeVar) for parameter in parameters):
+        for base in vars(cls).get('__orig_bases__', cls.__bases__):
+            if is_kind(base):
+                base = substitute_type_variables(base, type_)
+                yield from iterate_type_args(base, is_kind)
+    args = get_args(type_)
+    if args:
+        yield args
+
+
 def inspect_sequence_type(
     sequence_type: Any,
 ) -> Any:
@@ -2629,23 +2696,9 @@ def inspect_sequence_type(
     >>> get_sequence_type(typing.Tuple[str, int, float])
     typing.Any
     """
-    if is_annotated(sequence_type):
-        sequence_type = get_origin(sequence_type)
-    orig_bases = getattr(
-        sequence_type,
-        '__orig_bases__',
-        (),
-    )
-    for base in (sequence_type,) + orig_bases:
-        if is_sequence_type(base):
-            t_args = get_args(base)
-            if (
-                len(t_args) == 1
-                or len(t_args) == 2 and ... in t_args
-            ):
-                for t in t_args:
-                    if t != ...:
-                        return t
+    for args in iterate_type_args(sequence_type, is_sequence_type):
+        if len(args) == 1 or len(args) == 2 and args[1] is ...:
+            return args[0]
     return Any
 
 
@@ -2674,22 +2727,9 @@ def inspect_mapping_type(
     >>> get_sequence_type(dict)
     (typing.Any, typing.Any)
     """
-    if is_annotated(mapping_type):
-        mapping_type = get_origin(mapping_type)
-    orig_bases = getattr(
-        mapping_type,
-        '__orig_bases__',
-        getattr(
-            get_type(mapping_type),
-            '__orig_bases__',
-            (),
-        ),
-    )
-    for base in (mapping_type, get_type(mapping_type)) + orig_bases:
-        if is_mapping_type(base):
-            t_args = get_args(base)
-            if len(t_args) == 2:
-                return _MappingKeyValueTypesInfo(t_args[0], t_args[1])
+    for args in iterate_type_args(mapping_type, is_mapping_type):
+        if len(args) == 2:
+            return _MappingKeyValueTypesInfo(*args)
     return _MappingKeyValueTypesInfo(Any, Any)
 
 
-- 
2.43.0


From 8591f9eaf940cf14be84f5968555d5064198a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 81/95] fix: unmarshal subclasses of defaultdict to instances
 of themselves

---
 marsh/schema/types/defaultdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index b482aac..ac80bee 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -102,4 +102,4 @@ class DefaultDictUnmarshalSchema(
         self,
         value: Mapping[Any, Any],
     ) -> collections.defaultdict:
-        return collections.defaultdict(self.initializer, value)
+        return marsh.utils.get_type(self.value)(self.initializer, value)
-- 
2.43.0


From 0efbef796e6fd47edc2b08c7f7ec4a43b133b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 82/95] fix: unmarshal parametrized generic named tuples and
 typed dicts by their fields

Their type arguments were taken for those of a sequence or mapping.
---
 marsh/schema/types/namedtuple.py |  2 +-
 marsh/schema/types/typeddict.py  | 14 ++++++++------
 marsh/utils.py                   | 12 +++++++++++-
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index a2a7600..2654505 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -103,7 +103,7 @@ class NamedTupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[
     def doc_description(
         self,
     ) -> Optional[str]:
-        doc = getattr(self.value, '__doc__', None)
+        doc = getattr(marsh.utils.get_type(self.value), '__doc__', None)
         if not doc or is_generated_class_docstring(doc):
             return None
         return doc
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 5f9cfc9..4823750 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -28,9 +28,10 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     def required_keys(
         self,
     ) -> Sequence[str]:
-        if hasattr(self.value, '__required_keys__'):
-            keys = self.value.__required_keys__  # type: ignore
-        elif self.value.__total__:  # type: ignore
+        type_ = marsh.utils.get_type(self.value)
+        if hasattr(type_, '__required_keys__'):
+            keys = type_.__required_keys__  # type: ignore
+        elif type_.__total__:  # type: ignore
             keys = frozenset(marsh.utils.resolve_type_hints(self.value))
         else:
             keys = frozenset()
@@ -41,9 +42,10 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     def optional_keys(
         self,
     ) -> Sequence[str]:
-        if hasattr(self.value, '__optional_keys__'):
-            keys = self.value.__optional_keys__  # type: ignore
-        elif not self.value.__total__:  # type: ignore
+        type_ = marsh.utils.get_type(self.value)
+        if hasattr(type_, '__optional_keys__'):
+            keys = type_.__optional_keys__  # type: ignore
+        elif not type_.__total__:  # type: ignore
             keys = frozenset(marsh.utils.resolve_type_hints(self.value))
         else:
             keys = frozenset()
diff --git a/marsh/utils.py b/marsh/utils.py
index 50d219c..9dbe1a7 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1642,6 +1642,7 @@ def is_namedtuple_type(
     Returns:
         ``True`` if value is a namedtuple type, else ``False``.
     """
+    value = get_origin(value) or value
     try:
         if not isinstance(value, NamedTupleProtocol):
             return False
@@ -1687,7 +1688,7 @@ def is_typed_namedtuple_type(
     try:
         return (
             is_namedtuple_type(value)
-            and bool(get_type_hints(value))
+            and bool(get_type_hints(get_type(value)))
         )
     except TypeError:
         return False
@@ -1704,6 +1705,7 @@ def is_typeddict_type(
     Returns:
         ``True`` if value is a typed dict type, else ``False``.
     """
+    value = get_origin(value) or value
     return any(is_td(value) for is_td in _IsTypedDict)
 
 
@@ -1858,6 +1860,13 @@ def resolve_type_hints(
     Returns:
         The type hints.
     """
+    origin = get_origin(value)
+    if origin is not None:
+        return {
+            name: substitute_type_variables(hint, value)
+            for name, hint
+            in resolve_type_hints(origin, globalns).items()
+        }
     if inspect.isclass(value):
         owner = value
         localns = None
@@ -2502,6 +2511,7 @@ def get_attribute_description(
     Returns:
         The attribute description if found, else :data:`None`.
     """
+    cls = get_origin(cls) or cls
     try:
         for base in _get_documented_bases(cls):
             if base == object:
-- 
2.43.0


From bf4e8a07b13dc19b67d8b9f0a9a6e79e658aca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 83/95] fix: locate the keys of typed dicts whose types can not
 be unmarshaled

---
 marsh/schema/types/typeddict.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 4823750..5cb8ad4 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -64,23 +64,17 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             for name, type_
             in marsh.utils.resolve_type_hints(self.value).items()
         }
-        self.schemas = types.MappingProxyType(
-            {
-                **{
-                    name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
-                    )
-                    for name in self.required_keys
-                },
-                **{
-                    name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
-                        default=self._sentinel,
-                    )
-                    for name in self.optional_keys
-                },
-            },
-        )
+        schemas = {}
+        for name in (*self.required_keys, *self.optional_keys):
+            default = marsh.MISSING
+            if name in self.optional_keys:
+                default = self._sentinel
+            with marsh.errors.prepend(name):
+                schemas[name] = marsh.schema.UnmarshalSchema(
+                    annotations[name],
+                    default=default,
+                )
+        self.schemas = types.MappingProxyType(schemas)
 
     @classmethod
     def match(
-- 
2.43.0


From 9a2197e57e9ade4b27ea5a50024b1c762e32c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 84/95] fix: do not suggest the names of variable arguments as
 keys

---
 marsh/schema/template/structured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 79d64d0..1fbc2ef 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -267,7 +267,8 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
             raise marsh.errors.UnmarshalError(
                 marsh.utils.get_closest_error_message(
                     key,
-                    self.schemas,
+                    # variable arguments have no key
+                    [name for name in self.schemas if not name.startswith('*')],
                     key='key',
                 ),
                 element=element,
-- 
2.43.0


From 73202d877c476bd5c861034871508a2251751f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 85/95] fix: look into annotated types when their name or
 optional type is asked for

---
 marsh/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 9dbe1a7..fd97059 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2037,7 +2037,7 @@ def is_optional(
         :data:`None` is in its arguments, else ``False``.
     """
     if is_annotated(type_):
-        type_ = get_origin(type_)
+        type_ = typing_extensions.get_args(type_)[0]
     return is_union(type_) \
         and type(None) in get_args(type_)
 
@@ -2093,7 +2093,7 @@ def get_optional_type(
             f'{type_}',
         )
     if is_annotated(type_):
-        type_ = get_origin(type_)
+        type_ = typing_extensions.get_args(type_)[0]
     args = []
     for arg in get_args(type_):
         if arg not in (None, type(None)):  # noqa: E721
@@ -2116,7 +2116,7 @@ def get_type_name(
         The string representation of the value.
     """
     if is_annotated(value):
-        value = get_origin(value)
+        value = typing_extensions.get_args(value)[0]
     if is_typing_alias(value):
         return str(value).replace('typing.', '')
     return getattr(get_type(value), '__name__', str(value))
-- 
2.43.0


From 3745143eb2fa2648f08c3661a9c200788007f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 86/95] fix: do not mistake classes for sequences or mappings
 because of their metaclass

---
 marsh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index fd97059..bc592c6 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1474,7 +1474,7 @@ def is_sequence_type(
         return (
             not is_mapping_type(value)
             and not issubclass(value, (str, bytes))
-            and isinstance(value, SequenceProtocol)
+            and issubclass(value, SequenceProtocol)
             and not is_obj_instance(value)
         )
     except TypeError:
@@ -1569,7 +1569,7 @@ def is_mapping_type(
         return is_mapping_type(origin)
     try:
         return (
-            isinstance(value, MappingProtocol)
+            issubclass(value, MappingProtocol)
             and not is_obj_instance(value)
         )
     except TypeError:
-- 
2.43.0


From 5fda94ed0324bda4f764c31498ef62fa2aad6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 87/95] fix: find forward references in the parameters of
 callables

`get_args(Callable[["X"], int])` holds a list, the items of which were not
looked at by `has_forward_ref`.
---
 marsh/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index bc592c6..4064793 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1833,6 +1833,9 @@ def has_forward_ref(
         return False
     if is_annotated(value):
         return has_forward_ref(typing_extensions.get_args(value)[0])
+    if isinstance(value, list):
+        # the parameters of a callable
+        return any(map(has_forward_ref, value))
     return any(map(has_forward_ref, get_args(value)))
 
 
-- 
2.43.0


From 1a3edcfa1c582af87be991ae34df8e7c11a9f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 88/95] fix: do not compare values by equality when asked if
 they are types

Objects which define equality in their own way (equal to everything, or
elementwise such as arrays) were taken for typing aliases, or failed with the
error of their comparison, e.g. when marshaled.
---
 marsh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 4064793..4795986 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1976,7 +1976,7 @@ def is_literal_string(
     Returns:
         ``True`` if value is a typing.LiteralString, else ``False``.
     """
-    return value in _LiteralStringTypes
+    return any(value is type_ for type_ in _LiteralStringTypes)
 
 
 def is_typing_alias(
@@ -1999,7 +1999,7 @@ def is_typing_alias(
     return (
         get_origin(value) is not None
         or type(value) is getattr(types, 'GenericAlias', None)
-        or value in _TypeAliasTypes
+        or any(value is alias for alias in _TypeAliasTypes)
         or hasattr(value, '__class__')
         and (
             value.__class__.__name__.endswith('_GenericAlias')
-- 
2.43.0


From e9218ef659cd0bdbdbe8a97b42a83b54104d50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 89/95] fix: type variables of classes derived from
 parametrized builtins

`class Items(list[T])` has no `__parameters__`, unlike a class derived from
`typing.List[T]`, for which reason the content of `Items[int]` was taken to be
of the type `T`.
---
 marsh/utils.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 4795986..1e5d13a 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2618,6 +2618,28 @@ def get_closest_error_message(
     return message
 
 
+def get_type_parameters(
+    cls: Any,
+) -> Tuple[Any, ...]:
+    """Get the type variables of a generic class.
+
+    Arguments:
+        cls: The class.
+
+    Returns:
+        The type variables in the order in which they
+        are replaced when the class is parametrized.
+    """
+    if hasattr(cls, '__parameters__'):
+        return cls.__parameters__
+    # a base such as `list[T]` does not add the type
+    # variables to the class, unlike `typing.List[T]`
+    parameters: Dict[Any, None] = {}
+    for base in getattr(cls, '__dict__', {}).get('__orig_bases__', ()):
+        parameters.update(dict.fromkeys(getattr(base, '__parameters__', ())))
+    return tuple(parameters)
+
+
 def substitute_type_variables(
     type_: Any,
     alias: Any,
@@ -2632,7 +2654,7 @@ def substitute_type_variables(
     Returns:
         The type without the type variables of the class.
     """
-    parameters = getattr(get_origin(alias), '__parameters__', ())
+    parameters = get_type_parameters(get_origin(alias))
     if isinstance(type_, TypeVar):
         return dict(zip(parameters, get_args(alias))).get(type_, type_)
     if (
@@ -2674,7 +2696,7 @@ def iterate_type_args(
     if not is_kind(type_):
         return
     cls = get_type(type_)
-    parameters = getattr(cls, '__parameters__', ())
+    parameters = get_type_parameters(cls)
     if all(isinstance(parameter, TypeVar) for parameter in parameters):
         for base in vars(cls).get('__orig_bases__', cls.__bases__):
             if is_kind(base):
-- 
2.43.0


From de8a15d8cb566c28adf0e27ed934484e1f420924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 90/95] fix: do not marshal values that are equal to None as
 None

Objects may define equality in any way, such as being equal to everything.
---
 marsh/schema/types/none.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/types/none.py b/marsh/schema/types/none.py
index f21e7c3..8208a8e 100644
--- a/marsh/schema/types/none.py
+++ b/marsh/schema/types/none.py
@@ -11,10 +11,8 @@ class NoneMarshalSchema(marsh.schema.MarshalSchema):
         cls,
         value: Any,
     ) -> bool:
-        try:
-            return value in (None, type(None))
-        except Exception:
-            return False
+        # values may define equality in any way
+        return value is None or value is type(None)
 
     @staticmethod
     def doc_static_type() -> str:
@@ -45,10 +43,8 @@ class NoneUnmarshalSchema(marsh.schema.UnmarshalSchema[None]):
         cls,
         value: Any,
     ) -> bool:
-        try:
-            return value in (None, type(None))
-        except Exception:
-            return False
+        # values may define equality in any way
+        return value is None or value is type(None)
 
     @staticmethod
     def doc_static_type() -> str:
-- 
2.43.0


From ead2457391aec7ecd57dc82448354964bf4950c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 91/95] fix: replace type variables in the fields inherited
 from parametrized classes

The fields which a named tuple, typed dict or dataclass inherits from a class
such as `Base[int]` kept the type variables of `Base`, or these were replaced by
the types of other type variables of the same name.
---
 marsh/schema/types/dataclass.py |  5 ++-
 marsh/utils.py                  | 58 +++++++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 71f6312..9fe5206 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -103,7 +103,10 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             field: dataclasses.Field,
         ) -> Any:
             type_ = field.type
-            if marsh.utils.has_forward_ref(type_):
+            if (
+                marsh.utils.has_forward_ref(type_)
+                or marsh.utils.has_type_variable(type_)
+            ):
                 type_ = annotations.get(field.name, type_)
             if isinstance(type_, dataclasses.InitVar):
                 type_ = type_.type
diff --git a/marsh/utils.py b/marsh/utils.py
index 1e5d13a..cfb37b6 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1839,6 +1839,27 @@ def has_forward_ref(
     return any(map(has_forward_ref, get_args(value)))
 
 
+def has_type_variable(
+    value: Any,
+) -> bool:
+    """Determine if a type holds any type variables.
+
+    Arguments:
+        value: The type.
+
+    Returns:
+        ``True`` if the type is, or is parametrized by,
+        a type variable, else ``False``.
+    """
+    if isinstance(value, dataclasses.InitVar):
+        return has_type_variable(value.type)
+    return (
+        isinstance(value, TypeVar)
+        or get_origin(value) is not None
+        and bool(getattr(value, '__parameters__', ()))
+    )
+
+
 def resolve_type_hints(
     value: Any,
     globalns: Optional[Dict[str, Any]] = None,
@@ -1905,9 +1926,46 @@ def resolve_type_hints(
                         owner=owner,
                     )[name]
                     break
+        if has_type_variable(hints[name]):
+            for base in _get_parametrized_bases(value, name):
+                hints[name] = resolve_type_hints(base).get(name, hint)
+                break
     return hints
 
 
+def _get_annotated_class(
+    cls: Any,
+    name: str,
+) -> Any:
+    for parent in inspect.getmro(cls):
+        if name in vars(parent).get('__annotations__', ()):
+            return parent
+    return None
+
+
+def _get_parametrized_bases(
+    cls: Any,
+    name: str,
+) -> Iterator[Any]:
+    # the bases from which a class inherits an annotation
+    bases = getattr(cls, '__dict__', {}).get('__orig_bases__', getattr(cls, '__bases__', ()))
+    if is_typeddict_type(cls):
+        # the annotations of a typed dict include those of its
+        # bases, the last one of which has precedence
+        for base in reversed(bases):
+            annotations = getattr(get_type(base), '__annotations__', {})
+            if (
+                is_typeddict_type(base)
+                and name in annotations
+                and annotations[name] is cls.__annotations__.get(name)
+            ):
+                yield base
+    elif inspect.isclass(cls) and _get_annotated_class(cls, name) is not cls:
+        for base in bases:
+            if _get_annotated_class(get_type(base), name) is _get_annotated_class(cls, name):
+                yield base
+
+
 def strip_type_qualifiers(
     value: Any,
 ) -> Any:
-- 
2.43.0


From 0a432583402b0e27592e976c779a13b232fe7a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 92/95] fix: give the cache info of the schema registry

`cache_info` returned a tuple that holds the function which gives the info.
---
 marsh/schema/core/unmarshal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 7bf3cbb..12c4b7e 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -153,7 +153,7 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
     def cache_info(
         self,
     ) -> marsh.utils.CacheInfo:
-        return self.match.cache_info,  # type: ignore
+        return marsh.utils.CacheInfo.from_info(self.match.cache_info())  # type: ignore
 
     @overload
     def register(
-- 
2.43.0


From 145521a6982f215db5ef3af8df35a31bbbd2423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 93/95] fix: follow the cause of an error in
 marsh.testing.catch_cause

---
 marsh/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/testing.py b/marsh/testing.py
index d3ea0e7..a1b177b 100644
--- a/marsh/testing.py
+++ b/marsh/testing.py
@@ -45,7 +45,7 @@ def catch_cause(
             if isinstance(inner_exc, cause):
                 return
             exception_chain.append(inner_exc.__class__.__name__)
-            inner_exc = inner_exc.__context__
+            inner_exc = inner_exc.__cause__ or inner_exc.__context__
         raise AssertionError(
             f'expected an exception of type {cause} '
             f'as cause, got {tuple(exception_chain)}',
-- 
2.43.0


From 1328d5d06da63d2ea7886107884ff61f2da18515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 94/95] fix: keep a class that is a dataclass as it is in
 as_dataclass

---
 marsh/utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index cfb37b6..d9a12e0 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2609,14 +2609,8 @@ def as_dataclass(
         Dataclass.
     """
     assert not is_obj_instance(cls)
-    if not hasattr(cls, '__dataclass_fields__'):
-        return dataclasses.dataclass(cls)
-    for field in dataclasses.fields(cls):
-        if (
-            field.name in getattr(cls, '__annotations__', {})
-            and field.default_factory != dataclasses.MISSING
-        ):
-            setattr(cls, field.name, field)
+    if '__dataclass_fields__' in vars(cls):
+        return cls
     return dataclasses.dataclass(cls)
 
 
-- 
2.43.0


From d0370dae00b84290354e8d718d21e32087eb439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:34 +0000
Subject: [PATCH 95/95] fix: tell typed named tuples by the annotations of
 their type

---
 marsh/utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index d9a12e0..82f1d9e 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1665,13 +1665,10 @@ def is_typed_namedtuple(
     Returns:
         ``True`` if value is a namedtuple, else ``False``.
     """
-    try:
-        return (
-            is_namedtuple(value)
-            and bool(get_type_hints(value))
-        )
-    except TypeError:
-        return False
+    return (
+        is_obj_instance(value)
+        and is_typed_namedtuple_type(get_type(value))
+    )
 
 
 def is_typed_namedtuple_type(
-- 
2.43.0

