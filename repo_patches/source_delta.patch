From 529f7fc9f37960cd063c9e1abb83fcc31bd0c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 01/52] fix: iterate over every key of a mapping, None
 included, and spell its type None

---
 .../data_type_tree/generic_type/generic_data_type_tree.py   | 2 +-
 .../data_type_tree/generic_type/mapping_data_type_tree.py   | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index dcd9132..324c411 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -59,7 +59,7 @@ class GenericDataTypeTree(DataTypeTree):
         """
         child_types: List[str] = []
         if iterable:
-            child_types = [type(element).__name__ for element in iterable]
+            child_types = ["None" if element is None else type(element).__name__ for element in iterable]
         else:
             for child in self:
                 if not child.permission_to_be_created_as_type_alias:
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 73b46aa..a64f051 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -136,8 +136,4 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
     @override
     def __next__(self) -> DataTypeTree:
-        key = next(self._iterator, None)
-        if key is not None:
-            return self.children[key]
-        else:
-            raise StopIteration
+        return self.children[next(self._iterator)]
-- 
2.43.0


From 7df3c43b4bc6ab3fc38db06cb2eedc4d3de533bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 02/52] fix: keep the children of sequences and sets in order
 of appearance

---
 .../set_and_sequence_operations.py             | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 2e027bf..f789011 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -15,7 +15,6 @@ from typing import (
     Set,
     Tuple,
     Union,
-    cast,
 )
 
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory
@@ -37,10 +36,7 @@ class SetAndSequenceOperations:
 
         If `allow_repeated_children` is set to True, all children will be returned even if they are repeated.
         """
-        if allow_repeated_children:
-            children: Union[Set[DataTypeTree], List[DataTypeTree]] = []
-        else:
-            children = set()
+        children: List[DataTypeTree] = []
         names_added: Dict[DataTypeTree, str] = {}  # Used to generate new and unique cnames in a quicker way.
 
         child: DataTypeTree
@@ -67,18 +63,16 @@ class SetAndSequenceOperations:
             )
             if allow_repeated_children:
                 # Tuple case
-                children = cast("List[DataTypeTree]", children)
                 if child in names_added:
                     child.rename(names_added[child])
                 children.append(child)
                 names_added[child] = child.name
             else:
                 # List and Set cases
-                children = cast("Set[DataTypeTree]", children)
-                if child in children and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
+                if child in names_added and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
                     self._update_existing_typed_dict_child_from_another_equal_child(children, child)
-                if child not in children:
-                    children.add(child)
+                if child not in names_added:
+                    children.append(child)
                     names_added[child] = name
 
         return self._merge_similar_typed_dicts(
@@ -131,12 +125,12 @@ class SetAndSequenceOperations:
                     children[idx] = merged_child
             return tuple(children)
         else:
-            children = cast("Set[DataTypeTree]", children)
+            children = list(children)
             for child in children.copy():
                 if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
                     children.remove(child)
                     dict_data_type_trees.append(child)
 
             merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            children.add(merged_child) if isinstance(children, list) else children.add(merged_child)
+            children.append(merged_child)
             return tuple(children)
-- 
2.43.0


From 2bd643303bef3935062f413f9bcb4e9f7ce3c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:13 +0000
Subject: [PATCH 03/52] fix: do not merge TypedDicts whose corresponding values
 have different inner types

---
 .../generic_type/dict_data_type_tree.py              | 12 ++++++++++++
 .../generic_type/set_and_sequence_operations.py      |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b8f19af..83257b6 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -382,6 +382,18 @@ class DictDataTypeTree(MappingDataTypeTree):
         ]
         return DictMetadata.compare_multiple_dicts(*dicts_metadata)
 
+    @staticmethod
+    def all_corresponding_children_are_equal(*trees: DataTypeTree) -> bool:
+        """Check that no type is lost if the given `TypedDict`-based trees are merged (`int` can become `float`)."""
+        first_children: Dict[Hashable, DataTypeTree] = {}
+        for tree in trees:
+            if isinstance(tree, DictDataTypeTree) and tree.dict_metadata.is_typed_dict:
+                for key, child in tree.children.items():
+                    first = first_children.setdefault(key, child)
+                    if child != first and {child.holding_type, first.holding_type} != {int, float}:
+                        return False
+        return True
+
     @classmethod
     def from_multiple_dict_data_type_trees(cls, *trees: "DictDataTypeTree") -> "Self":
         """
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index f789011..a4024cf 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -112,6 +112,8 @@ class SetAndSequenceOperations:
             return tuple(children)
         if not comparison.all_corresponding_value_types_are_same_type:
             return tuple(children)
+        if not DictDataTypeTree.all_corresponding_children_are_equal(*children):
+            return tuple(children)
 
         dict_data_type_trees: List[DictDataTypeTree] = []
         if allow_repeated_children:
-- 
2.43.0


From 2a8a6a1bd033881e218e9d4f67bbce3893004377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:13 +0000
Subject: [PATCH 04/52] fix: tell TypedDicts with different required keys apart

---
 .../data_type_tree/generic_type/dict_data_type_tree.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 83257b6..41d9fa5 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -365,7 +365,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             return super()._get_hash()
         hashes: List[object] = []
         for name, child in self.children.items():
-            hashes.append(("typed_dict", name, child._get_hash()))
+            hashes.append(("typed_dict", name, self.dict_metadata.key_info[name].required, child._get_hash()))
         return frozenset(hashes)
 
     @staticmethod
-- 
2.43.0


From 7bb6d8cd043934fb2300921904f7ffda627e9b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 05/52] fix: refer to the aliases of TypedDict fields by the
 name they are declared with

---
 .../data_type_tree/generic_type/dict_data_type_tree.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 41d9fa5..8756910 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -265,8 +265,7 @@ class DictDataTypeTree(MappingDataTypeTree):
                 if not value.permission_to_be_created_as_type_alias:
                     content[key] = value.get_str_top_node_without_lvalue()
                 else:
-                    name = self._to_camel_case(value.name)
-                    content[key] = name
+                    content[key] = value.name
                 if key in self.dict_metadata.key_info:
                     if not self.dict_metadata.key_info[key].required:
                         self.imports.add("NotRequired")
-- 
2.43.0


From a3a66e7e67018f263fad6810e175db29be8de3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 06/52] fix: escape the keys of TypedDicts written with the
 functional syntax

---
 .../data_type_tree/generic_type/dict_data_type_tree.py    | 5 +++--
 lazy_type_hint/utils/__init__.py                          | 3 +++
 lazy_type_hint/utils/utils.py                             | 8 ++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 8756910..6b316f7 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -28,6 +28,7 @@ from lazy_type_hint.utils import (
     cache_returned_value_per_instance,
     format_string_as_docstring,
     is_string_python_keyword_compatible,
+    quote_string,
 )
 
 ValueT = TypeVar("ValueT")
@@ -308,7 +309,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             template = f"""{name} = TypedDict(
 {TAB}"{name}",
 {TAB}{{
-{TAB}{TAB}"{{key}}": {{value}},
+{TAB}{TAB}{{key}}: {{value}},
 {TAB}}},
 )"""
             idx_to_repeat = -3
@@ -327,7 +328,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             if key.startswith(self.hidden_keys_prefix):  # Do not add artificially created keys
                 continue
             if self.dict_metadata.is_functional_syntax:
-                modified_line += lines[idx_to_repeat].format(key=key, value=value) + "\n"
+                modified_line += lines[idx_to_repeat].format(key=quote_string(key), value=value) + "\n"
             else:
                 docstring = key_docstrings.get(key, "")
                 modified_line += lines[idx_to_repeat].format(key=key, value=value, optional_key_docstring=docstring)
diff --git a/lazy_type_hint/utils/__init__.py b/lazy_type_hint/utils/__init__.py
index c3d152d..5232a0a 100644
--- a/lazy_type_hint/utils/__init__.py
+++ b/lazy_type_hint/utils/__init__.py
@@ -14,3 +14,6 @@ from lazy_type_hint.utils.utils import (
 from lazy_type_hint.utils.utils import (
     is_string_python_keyword_compatible as is_string_python_keyword_compatible,
 )
+from lazy_type_hint.utils.utils import (
+    quote_string as quote_string,
+)
diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index ad0946a..fd17924 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -20,6 +20,14 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     return bool(string.replace("_", "").isalnum() and not string[0].isnumeric())
 
 
+def quote_string(string: str) -> str:
+    """Write a string as a double-quoted Python literal that takes a single line."""
+    string = string.replace("\\", "\\\\").replace('"', '\\"')
+    for character, escaped in (("\n", "\\n"), ("\r", "\\r"), ("\0", "\\x00")):
+        string = string.replace(character, escaped)
+    return f'"{string}"'
+
+
 def compare_ast(
     node1: Union[ast.expr, List[ast.expr], ast.Module],
     node2: Union[ast.expr, List[ast.expr], ast.Module],
-- 
2.43.0


From 710da9bdffce53cc3b655681e050ad89b1849572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 07/52] fix: recognise Python identifiers exactly

---
 lazy_type_hint/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index fd17924..ffa0932 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import os
 import subprocess
 from itertools import zip_longest
@@ -17,7 +18,7 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     Returns:
         bool: True if the string is compatible with Python keywords, False otherwise.
     """
-    return bool(string.replace("_", "").isalnum() and not string[0].isnumeric())
+    return string.isidentifier() and not keyword.iskeyword(string)
 
 
 def quote_string(string: str) -> str:
-- 
2.43.0


From ef239897801c5fb4bc8c743ea9e86456c741ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 08/52] fix: leave out of alias names the characters
 identifiers cannot have

---
 .../data_type_tree/generic_type/mapping_data_type_tree.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index a64f051..7ddd615 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -105,7 +105,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         idx_to_remove: Set[int] = set()
         removed = False
         for idx, char in enumerate(string):
-            if not char.isalpha() and not char.isnumeric():
+            if not char.isalnum() or not f"_{char}".isidentifier():
                 idx_to_remove.add(idx)
             if idx not in idx_to_remove:
                 if removed is True:
-- 
2.43.0


From 4aa5ecb37b884198d23ac969ec8edfaff49a3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 09/52] fix: hint callables whose source is unknown, generators
 included, as returning Any

---
 .../simple_data_type_tree/function_data_type_tree.py       | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index c92630d..11d9de2 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -48,7 +48,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         self.imports.import_all_unkown_symbols_from_signature(args)
 
         if "->" not in args:
-            if not self._has_return():
+            if self._has_return() is False:
                 return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
             self.imports.add("Any")
             return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
@@ -76,9 +76,8 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
-        code = textwrap.dedent(inspect.getsource(self.data))
         try:
-            tree = ast.parse(code)
+            tree = ast.parse(textwrap.dedent(inspect.getsource(self.data)))
         except:  # noqa: E722
             return None
-        return any(isinstance(node, ast.Return) for node in ast.walk(tree))
+        return any(isinstance(node, (ast.Return, ast.Yield, ast.YieldFrom)) for node in ast.walk(tree))
-- 
2.43.0


From c1621468f99226b69df9076e731213a6456d1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 10/52] fix: escape backslashes and triple quotes within
 docstrings

---
 lazy_type_hint/utils/docstring_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index 77abf9d..f298534 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -46,7 +46,7 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     Returns:
         str: The formatted docstring.
     """
-    string = string.rstrip("\n")
+    string = string.rstrip("\n").replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
     if not string.endswith("."):
         string += "."
     docstring = '"""' + string + '"""'
-- 
2.43.0


From c81cdfd4466077810952c82317931fbe3766cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 11/52] fix: tell apart the type objects held by one container

---
 .../simple_data_type_tree/type_data_type_tree.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 896a04b..baa0782 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -1,5 +1,5 @@
 import builtins
-from typing import Type
+from typing import Hashable, Type
 
 from typing_extensions import override
 
@@ -17,6 +17,10 @@ class TypeDataTypeTree(SimpleDataTypeTree):
             return f"{self.name}: TypeAlias = Type[{self.data.__name__}]"
         return f'{self.name}: TypeAlias = Type["{self.data.__name__}"]'
 
+    @override
+    def _get_hash(self) -> Hashable:
+        return ("type", id(self.data))
+
     def is_builtin_class(self) -> bool:
         try:
             cls = getattr(builtins, self.data.__name__)
-- 
2.43.0


From 2e85436474c7fbac6db5d7c3fc137e7dcc05f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 12/52] fix: tell apart the array dtypes held by one container

---
 .../simple_data_type_tree/numpy_data_type_tree.py           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
index 633682c..e55a309 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
@@ -1,3 +1,5 @@
+from typing import Hashable
+
 import numpy as np
 from numpy.typing import NDArray
 from typing_extensions import override
@@ -13,3 +15,7 @@ class NumpyDataTypeTree(SimpleDataTypeTree):
     def _get_str_top_node(self) -> str:
         self.imports.add("NDArray").add("numpy").add("TypeAlias")
         return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype}]"'
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return ("ndarray", str(self.data.dtype))
-- 
2.43.0


From 8e61b4e3206b33ddf878d9633b18cc5aca5cf48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 13/52] fix: render a tree again when asked without its imports

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 01de10d..fb37cdb 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -206,7 +206,6 @@ class DataTypeTree(ABC):
         )
 
     @final
-    @cache_returned_value_per_instance
     def get_strs_all_nodes_unformatted(
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
-- 
2.43.0


From 3ea302a895e17e0dbb7b873822a6a4fbc4cd7654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 14/52] fix: keep every equal sign of a renamed declaration

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index fb37cdb..83436cb 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -230,7 +230,7 @@ class DataTypeTree(ABC):
             declarations = declaration.split("=")
             old_name = declarations[0].rstrip().strip()
             new_name = new_name.format(name=old_name)
-            declaration = f"{new_name} =" + "".join(declarations[1:])
+            declaration = f"{new_name} =" + "=".join(declarations[1:])
         elif declaration.startswith("class "):
             pattern = r"class\s+(\w+)\b"
             match = re.search(pattern, declaration)
-- 
2.43.0


From f2cd6e8910140fa574875f6c878c31e81ad38402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 15/52] fix: tell apart containers of different types that hold
 the same types

---
 .../data_type_tree/generic_type/generic_data_type_tree.py       | 2 +-
 .../data_type_tree/generic_type/mapping_data_type_tree.py       | 2 +-
 .../data_type_tree/generic_type/pandas_series_data_type_tree.py | 2 +-
 .../data_type_tree/generic_type/sequence_data_type_tree.py      | 2 +-
 .../data_type_tree/generic_type/set_data_type_tree.py           | 2 +-
 .../data_type_tree/generic_type/tuple_data_type_tree.py         | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index 324c411..31877f6 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -79,7 +79,7 @@ class GenericDataTypeTree(DataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: List[object] = []
+        hashes: List[object] = [type(self)]
         for child in self:
             hashes.append(child._get_hash())
         return tuple(hashes)
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 7ddd615..6484726 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -124,7 +124,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: List[object] = []
+        hashes: List[object] = [type(self)]
         for name, child in self.children.items():
             hashes.append(("mapping", hash(type(name)), child._get_hash()))
         return frozenset(hashes)
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
index 6c3f858..0ff1ef4 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
@@ -30,7 +30,7 @@ class PandasSeriesDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: Set[object] = set()
+        hashes: Set[object] = {type(self)}
         for child in self:
             hashes.add(child._get_hash())
         return frozenset(hashes)
diff --git a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
index 3141c18..ab60fef 100644
--- a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
@@ -22,7 +22,7 @@ class SequenceDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: List[object] = []
+        hashes: List[object] = [type(self)]
         for child in self:
             hashes.append(child._get_hash())
         return frozenset(hashes)
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 5159989..26662e0 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -35,7 +35,7 @@ class SetDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: Set[object] = set()
+        hashes: Set[object] = {frozenset if self.holding_type is frozenset else set}
         for child in self:
             hashes.add(child._get_hash())
         return frozenset(hashes)
diff --git a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
index 650423a..bcd789d 100644
--- a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
@@ -49,7 +49,7 @@ class TupleDataTypeTree(SequenceDataTypeTree):
         if self.strategies.tuple_size_strategy == "any size":
             return super()._get_hash()
         else:
-            hashes: List[object] = []
+            hashes: List[object] = [type(self)]
             for child in self:
                 hashes.append(child._get_hash())
             return tuple(hashes)
-- 
2.43.0


From 87dbdbe78543ba7f64c2ece65b53ceb264db2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 16/52] fix: declare every alias under a name of its own

---
 .../data_type_tree/data_type_tree.py          | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 83436cb..1ca07de 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -10,6 +10,7 @@ from typing import (
     TYPE_CHECKING,
     Any,
     ClassVar,
+    Dict,
     FrozenSet,
     Hashable,
     Mapping,
@@ -243,9 +244,14 @@ class DataTypeTree(ABC):
         return declaration, old_name
 
     @final
-    def _get_strs_all_nodes_unformatted(self, *, types: Optional[OrderedSet[str]] = None) -> None:
+    def _get_strs_all_nodes_unformatted(
+        self, *, types: Optional[OrderedSet[str]] = None, names: Optional[Dict[str, str]] = None
+    ) -> None:
         if types is None:
             types = OrderedSet()
+        is_top_node = names is None
+        if names is None:
+            names = {self.name: ""}
 
         if self.depth == 0 and not self.children:
             if self.permission_to_be_created_as_type_alias:
@@ -255,13 +261,24 @@ class DataTypeTree(ABC):
             return
 
         for child in self:
-            child._get_strs_all_nodes_unformatted(types=types)
+            child._get_strs_all_nodes_unformatted(types=types, names=names)
             if child.permission_to_be_created_as_type_alias:
-                types.add(child.get_str_top_node())
-        if self.permission_to_be_created_as_type_alias:
+                types.add(child._get_str_top_node_with_unique_name(names))
+        if is_top_node and self.permission_to_be_created_as_type_alias:
             types.add(self.get_str_top_node())
         return
 
+    @final
+    def _get_str_top_node_with_unique_name(self, names: Dict[str, str]) -> str:
+        """Get the type alias of the current node, renamed if another one already took its name (`names`)."""
+        name, count = self.name, 2
+        string = self.get_str_top_node()
+        while names.setdefault(self.name, string) != string:
+            self.name = f"{name}{count}"
+            string = self.get_str_top_node()
+            count += 1
+        return string
+
     @final
     def _format_node_strings(self, strs_py: Sequence[str]) -> str:
         """Get the string representation of the type hints that represent the whole tree."""
-- 
2.43.0


From a81864e4237ac800a2e386e52bee8ab31876dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 17/52] fix: use the functional syntax for keys that Python
 would turn into others

---
 .../data_type_tree/generic_type/dict_data_type_tree.py     | 7 ++++++-
 .../data_type_tree/generic_type/mapping_data_type_tree.py  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 6b316f7..3ea74ac 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,4 +1,5 @@
 import keyword
+import unicodedata
 from collections import defaultdict
 from dataclasses import dataclass, field
 from itertools import islice
@@ -129,7 +130,11 @@ class DictMetadata:
     @cache_returned_value_per_instance
     def _all_keys_are_parsable(self) -> bool:
         if self._all_keys_are_string(self._data) and all(key not in keyword.kwlist for key in self._data):
-            return all(is_string_python_keyword_compatible(key) for key in self._data)
+            return all(
+                # Python turns the identifiers into their normal form, which might be another key
+                is_string_python_keyword_compatible(key) and unicodedata.normalize("NFKC", key) == key
+                for key in self._data
+            )
         return False
 
     def update(self, other: "DictMetadata") -> Mapping[Hashable, object]:
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 6484726..863589e 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -1,4 +1,5 @@
 import re
+import unicodedata
 from collections import defaultdict
 from typing import Dict, Final, Hashable, Iterator, List, Literal, Mapping, Set, Type
 
@@ -93,6 +94,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
     @staticmethod
     def _to_camel_case(string: str) -> str:
         """Make it camel case and compatible with Python keywords."""
+        string = unicodedata.normalize("NFKC", string)  # As Python does with any identifier
         # Remove any initial number within the string
         match = re.match(r"^\d+", string)
         if match:
-- 
2.43.0


From bc93280f9acb30cc213f3e801eac5ab0891456d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 18/52] fix: quote the types of keys whose class is not
 imported

---
 .../generic_type/generic_data_type_tree.py               | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index 31877f6..446ed6f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -1,3 +1,4 @@
+import builtins
 from abc import abstractmethod
 from typing import (
     Hashable,
@@ -59,7 +60,13 @@ class GenericDataTypeTree(DataTypeTree):
         """
         child_types: List[str] = []
         if iterable:
-            child_types = ["None" if element is None else type(element).__name__ for element in iterable]
+            for element in iterable:
+                type_name = type(element).__name__
+                if element is None:
+                    type_name = "None"
+                elif not isinstance(getattr(builtins, type_name, None), type):
+                    type_name = f'"{type_name}"'  # As any instance of a class that is not imported
+                child_types.append(type_name)
         else:
             for child in self:
                 if not child.permission_to_be_created_as_type_alias:
-- 
2.43.0


From 3626f06d3cf364628bb29a37ea2918f1af514d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 19/52] fix: do not lose one percent of similarity to rounding

---
 .../data_type_tree/generic_type/dict_data_type_tree.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 3ea74ac..fd9bba2 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -46,7 +46,7 @@ class DictMetadataComparison:
         total_keys = len(self.common_keys) + len(self.non_common_keys)
         if total_keys == 0:
             return 0
-        return int(100 * (len(self.common_keys) / total_keys))
+        return 100 * len(self.common_keys) // total_keys
 
     @property
     def all_corresponding_value_types_are_same_type(self) -> bool:
-- 
2.43.0


From b40cd89399b363c02dc9219cb9412fa902010f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 20/52] fix: use the functional syntax for private keys

---
 .../data_type_tree/generic_type/dict_data_type_tree.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index fd9bba2..3dd06d4 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -132,8 +132,12 @@ class DictMetadata:
         if self._all_keys_are_string(self._data) and all(key not in keyword.kwlist for key in self._data):
             return all(
                 # Python turns the identifiers into their normal form, which might be another key
-                is_string_python_keyword_compatible(key) and unicodedata.normalize("NFKC", key) == key
+                is_string_python_keyword_compatible(key)
+                and unicodedata.normalize("NFKC", key) == key
+                # And within classes it changes (or, for `__debug__`, it does not accept) the private ones
+                and (not key.startswith("__") or (key.endswith("__") and key != "__debug__"))
                 for key in self._data
+                if not (self.hidden_key_prefix and key.startswith(self.hidden_key_prefix))
             )
         return False
 
-- 
2.43.0


From 06799af7cc24286b524adc5488c0ee6c415c4c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:28 +0000
Subject: [PATCH 21/52] fix: use the functional syntax for dictionaries with
 private names

---
 .../generic_type/dict_data_type_tree.py             | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 3dd06d4..e4f16c2 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -233,6 +233,11 @@ class DictDataTypeTree(MappingDataTypeTree):
             return True
         return super().permission_to_be_created_as_type_alias
 
+    @property
+    def is_functional_syntax(self) -> bool:
+        # Classes cannot refer to private names, such as the ones their fields would have
+        return self.name.startswith("__") or self.dict_metadata.is_functional_syntax
+
     @override
     def __pre_child_instantiation__(self) -> None:
         check_n_max = self.strategies.check_max_n_elements_within_container
@@ -286,7 +291,7 @@ class DictDataTypeTree(MappingDataTypeTree):
         return self._build_typed_dict(
             name=self.name,
             content=content,
-            functional_syntax=self.dict_metadata.is_functional_syntax,
+            functional_syntax=self.is_functional_syntax,
             key_used_as_class_docstring=self.strategies.key_used_as_doc,
         )
 
@@ -336,7 +341,7 @@ class DictDataTypeTree(MappingDataTypeTree):
         for key, value in content.items():
             if key.startswith(self.hidden_keys_prefix):  # Do not add artificially created keys
                 continue
-            if self.dict_metadata.is_functional_syntax:
+            if functional_syntax:
                 modified_line += lines[idx_to_repeat].format(key=quote_string(key), value=value) + "\n"
             else:
                 docstring = key_docstrings.get(key, "")
@@ -360,9 +365,9 @@ class DictDataTypeTree(MappingDataTypeTree):
         string = self.data[key_used_as_doc]
         lines = list(lines)
         if isinstance(string, str):
-            indentation = "" if self.dict_metadata.is_functional_syntax else TAB
+            indentation = "" if self.is_functional_syntax else TAB
             docstring = format_string_as_docstring(string, indentation=indentation)
-            if self.dict_metadata.is_functional_syntax:
+            if self.is_functional_syntax:
                 lines.insert(len(lines), docstring)
             else:
                 lines.insert(1, docstring + "\n")
-- 
2.43.0


From d7c5fbd539e147953d3a8856189c4936b4cb6a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 22/52] fix: refuse a limit of no elements at all

---
 lazy_type_hint/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/strategies.py b/lazy_type_hint/strategies.py
index f518eaa..fb3ba99 100644
--- a/lazy_type_hint/strategies.py
+++ b/lazy_type_hint/strategies.py
@@ -39,5 +39,5 @@ class ParsingStrategies:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be greater than 0")
         if self.merge_different_typed_dicts_if_similarity_above > 100:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be less than 100")
-        if self.check_max_n_elements_within_container and self.check_max_n_elements_within_container <= 0:
+        if self.check_max_n_elements_within_container is not None and self.check_max_n_elements_within_container <= 0:
             raise ValueError("`chec_max_n_type_elements_within_container` must at least 1")
-- 
2.43.0


From 3e436ab697f99c5e01bc64979664348e2cc36e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:16 +0000
Subject: [PATCH 23/52] fix: escape null characters within docstrings

---
 lazy_type_hint/utils/docstring_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index f298534..abf7e9e 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -46,7 +46,7 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     Returns:
         str: The formatted docstring.
     """
-    string = string.rstrip("\n").replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
+    string = string.rstrip("\n").replace("\\", "\\\\").replace('"""', '\\"\\"\\"').replace("\0", "\\x00")
     if not string.endswith("."):
         string += "."
     docstring = '"""' + string + '"""'
-- 
2.43.0


From fe91792915a7d36a5279d514f36293b716131e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 24/52] fix: do not read the end of a YAML file as what is
 above its first key

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 208c386..a2771e9 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -202,7 +202,7 @@ class YamlFileModifier:
         increment = step
         multi_line_comments: List[str] = []
         with suppress(IndexError):
-            while self.lines[line_idx + increment][idx_first_char] == "#":
+            while line_idx + increment >= 0 and self.lines[line_idx + increment][idx_first_char] == "#":
                 multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
                 increment += step
 
-- 
2.43.0


From 6e142b0f9560709099d054dabac8fc68004a76e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:48 +0000
Subject: [PATCH 25/52] fix: do not read the side comment of a YAML key as a
 comment of the next one

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index a2771e9..371bd11 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -203,6 +203,8 @@ class YamlFileModifier:
         multi_line_comments: List[str] = []
         with suppress(IndexError):
             while line_idx + increment >= 0 and self.lines[line_idx + increment][idx_first_char] == "#":
+                if self.lines[line_idx + increment][:idx_first_char].strip():  # Side comment of another key
+                    break
                 multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
                 increment += step
 
-- 
2.43.0


From d7a8359125de60f249abf9403f766d6a9b36d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 26/52] fix: do not add elements to YAML lists within lists
 that are commented

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 371bd11..0852084 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -337,7 +337,7 @@ class YamlFileModifier:
                     continue
 
                 key = self._extract_key_from_line(line)
-                if not key:
+                if not key or key.startswith("- "):  # Lists within lists cannot hold the key of a comment
                     continue
 
                 for comments_are in self.comments_are:
-- 
2.43.0


From 2b779f5220dc7d30e8844325d9b4e4489e0371df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:22 +0000
Subject: [PATCH 27/52] fix: read the side comments of YAML values that contain
 a hash

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 0852084..5037f7b 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -158,13 +158,11 @@ class YamlFileModifier:
             yaml_key: value  # My comment
         """
         idx = YamlFileModifier._find_first_occurrence_that_is_not_between(line, "#")
+        while idx and line[idx - 1] != " ":  # Part of the value
+            next_idx = YamlFileModifier._find_first_occurrence_that_is_not_between(line[idx + 1 :], "#")
+            idx = None if next_idx is None else idx + 1 + next_idx
         if not idx:
             return ""
-        try:
-            if line[idx - 1] != " ":
-                return ""
-        except IndexError:
-            return ""
         comment = line[idx + 1 :].strip().rstrip()
         if comment and not comment.endswith("."):
             return comment + "."
-- 
2.43.0


From 2a308e8a48d7aabd1cc1c1a01e589b2261dd3fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 28/52] fix: do not count the comments of a YAML file as
 elements of its mappings

---
 .../data_type_tree/generic_type/dict_data_type_tree.py      | 3 ++-
 .../data_type_tree/generic_type/mapping_data_type_tree.py   | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index e4f16c2..5a52c3c 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -242,7 +242,8 @@ class DictDataTypeTree(MappingDataTypeTree):
     def __pre_child_instantiation__(self) -> None:
         check_n_max = self.strategies.check_max_n_elements_within_container
         if self.strategies.dict_strategy != "TypedDict" and check_n_max:
-            self.data = dict(islice(self.data.items(), check_n_max))
+            items = ((key, value) for key, value in self.data.items() if not self._is_hidden_key(key))
+            self.data = dict(islice(items, check_n_max))
         self.dict_metadata = DictMetadata(
             self.data, hidden_key_prefix=self.hidden_keys_prefix, strategies=self.strategies
         )
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 863589e..f104311 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -26,7 +26,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
         for key, value in data.items():
             suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
-            if isinstance(key, str) and key.startswith(self.hidden_keys_prefix):
+            if self._is_hidden_key(key):
                 continue
             child = data_type_tree_factory(
                 data=value,
@@ -41,6 +41,10 @@ class MappingDataTypeTree(GenericDataTypeTree):
         self._assign_same_data_type_tree_to_keys_with_same_value_type(children, children_info=children_info)
         return children
 
+    @classmethod
+    def _is_hidden_key(cls, key: Hashable) -> bool:
+        return isinstance(key, str) and key.startswith(cls.hidden_keys_prefix)
+
     def _assign_same_data_type_tree_to_keys_with_same_value_type(
         self, children: Dict[Hashable, DataTypeTree], *, children_info: Dict[DataTypeTree, Set[Hashable]]
     ) -> None:
-- 
2.43.0


From 8d440e6ec921df54821305eba48396cee9fcbf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 29/52] fix: read the comments of YAML lists with several
 spaces after the dash

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 5037f7b..24eff33 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -410,7 +410,11 @@ class YamlFileModifier:
         new_lines = list(self.lines).copy()
         for comment in reverse_order_comments:
             key = self.prefix + comment.associated_with_key
-            string = f"{comment.spacing}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
+            spacing = comment.spacing
+            if comment.must_replace_its_key_as_first_element_of_list:
+                # The dash might be followed by more than one space
+                spacing = new_lines[comment.key_line][: comment.spacing_element[1]]
+            string = f"{spacing}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
             if comment.must_replace_its_key_as_first_element_of_list:
                 new_lines[comment.key_line] = new_lines[comment.key_line].replace("-", " ", 1)
             new_lines.insert(comment.key_line, string)
-- 
2.43.0


From 20ca0a450f51b409058d369b47a74ff1cd4aec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:41 +0000
Subject: [PATCH 30/52] fix: keep the YAML keys that begin with a dash when
 they are commented

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 24eff33..c9fffd3 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -329,13 +329,13 @@ class YamlFileModifier:
 
         for idx, line in enumerate(self.lines):
             line_with_no_spacing = self._remove_spacing(line)
-            if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalpha() or line_with_no_spacing[0] == "-"):
+            if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalpha() or line_with_no_spacing.startswith("- ")):
                 spaces_or_tabs = self._count_spaces_or_tabs_at_start(line, indentation=indentation)
                 if spaces_or_tabs is None:
                     continue
 
                 key = self._extract_key_from_line(line)
-                if not key or key.startswith("- "):  # Lists within lists cannot hold the key of a comment
+                if not key or key.startswith("-"):  # Lists within lists cannot hold the key of a comment
                     continue
 
                 for comments_are in self.comments_are:
-- 
2.43.0


From 1c7f47722097ca3da10d298e2ee9565ae9e9d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:04 +0000
Subject: [PATCH 31/52] fix: tell comments and nested YAML collections of a
 list from keys

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index c9fffd3..533a172 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -329,13 +329,13 @@ class YamlFileModifier:
 
         for idx, line in enumerate(self.lines):
             line_with_no_spacing = self._remove_spacing(line)
-            if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalpha() or line_with_no_spacing.startswith("- ")):
+            if line_with_no_spacing[:1].isalpha() or line_with_no_spacing.startswith("- "):
                 spaces_or_tabs = self._count_spaces_or_tabs_at_start(line, indentation=indentation)
                 if spaces_or_tabs is None:
                     continue
 
                 key = self._extract_key_from_line(line)
-                if not key or key.startswith("-"):  # Lists within lists cannot hold the key of a comment
+                if not key or key.startswith(("-", "#", "[", "{")):  # Not a key that can be given another one
                     continue
 
                 for comments_are in self.comments_are:
-- 
2.43.0


From 4e31b51c30e1b9f32a2c937cab1848f84704fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:16 +0000
Subject: [PATCH 32/52] fix: return the data of YAML files without their
 comments

LazyTypeHintLive.from_yaml_file returned the data read from the temporary
file, in which the comments are extra hidden keys.
---
 lazy_type_hint/generators/lazy_type_hint_live.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 83848e3..f29e69a 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -107,7 +107,10 @@ class LazyTypeHintLive(LazyTypeHintABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> ObjectT:
-        return super().from_yaml_file(loader=loader, path=path, class_name=class_name, comments_are=comments_are)  # type: ignore
+        data = loader(path)
+        # Comments are only part of the data the type hints are generated from
+        super().from_yaml_file(loader=loader, path=path, class_name=class_name, comments_are=comments_are)
+        return data
 
     @override
     def from_data(
-- 
2.43.0


From 2835ab9ae55570bd6867b195f648b6e9355263fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 33/52] fix: validate type hints regardless of how their
 docstrings are laid out

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index f29e69a..831157d 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -149,13 +149,8 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
-        if '"""' not in string:
-            return string
-
-        strings = string.splitlines()
-        for idx, string in enumerate(strings):
-            strings[idx] = "" if '"""' in string else string
-        return "\n".join(strings)
+        string = re.sub(r'"""(?:\\.|[^\\])*?"""', "", string, flags=re.DOTALL)
+        return "\n".join(line for line in string.splitlines() if line.strip())
 
     @classmethod
     def reset(cls) -> None:
-- 
2.43.0


From 4f1fa4a1f20e6e368257db5a06e7d6dc873d26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 34/52] fix: keep the type hints added by other
 LazyTypeHintLive instances

Every instance kept the interface file as it was when created: the overloads
added by another one were lost, and using an instance after reset failed.
---
 lazy_type_hint/generators/lazy_type_hint_live.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 831157d..10c9a6d 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -71,10 +71,13 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self.strategies = strategies
         self.if_type_hint_exists = if_type_hint_exists
 
+        self.this_file_pyi = self._read_this_file_pyi()
+
+    @final
+    def _read_this_file_pyi(self) -> PyFileModifier:
         if not self._this_file_pyi_path.exists():
-            self.this_file_pyi = self._generate_this_file_pyi()
-        else:
-            self.this_file_pyi = PyFileModifier(self._this_file_pyi_path.read_text(encoding="utf-8"))
+            return self._generate_this_file_pyi()
+        return PyFileModifier(self._this_file_pyi_path.read_text(encoding="utf-8"))
 
     def _get_classes_added(self) -> Mapping[str, Path]:
         to_find = "classes_created"
@@ -124,6 +127,8 @@ class LazyTypeHintLive(LazyTypeHintABC):
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
         custom_class_file_path = self._custom_class_dir_path / f"{class_name}.py"
+        # It might have been modified by other instances since it was last read
+        self.this_file_pyi = self._read_this_file_pyi()
 
         if class_name in self._get_classes_added() and self.if_type_hint_exists == "validate":
             string_representation = cast(
-- 
2.43.0


From bfde4cc4c2dc081e92ce770b5435ddb02f6a7637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 35/52] fix: do not type hint the columns of a DataFrame when
 asked so

---
 .../generic_type/pandas_data_frame_data_type_tree.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index c8df6e1..a756f64 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -141,6 +141,8 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     @override
     def _instantiate_children(self, data: pd.DataFrame) -> Mapping[Hashable, DataTypeTree]:
         children: Dict[Hashable, DataTypeTree] = {}
+        if self.strategies.pandas_strategies == "Do not type hint columns":
+            return {}
         if not self.are_all_columns_literal_compatible:
             return {}
 
@@ -170,7 +172,7 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("pandas")
-        if len(self) == 0 or not self.strategies.pandas_strategies:
+        if len(self) == 0:
             self.imports.add("TypeAlias")
             return f"{self.name}: TypeAlias = pd.DataFrame"
         self.imports.add("overload")
-- 
2.43.0


From 4442876a4ed67e3d4711b7ea8c60ed7961b94e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 36/52] fix: hint DataFrames that repeat a column

---
 .../generic_type/pandas_data_frame_data_type_tree.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index a756f64..040c3f3 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -146,9 +146,11 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         if not self.are_all_columns_literal_compatible:
             return {}
 
-        # Corner case to avoid infinite recursion
+        # Corner cases to avoid infinite recursion
         if all(isinstance(column, tuple) and len(column) == 1 for column in self.data.columns):
             return {}
+        if len(self.data.columns) > 1 and len(set(self.data.columns)) == 1:
+            return {}
 
         columns_processed: Set[Union[bool, str, int]] = set()
         for column in data.columns:
-- 
2.43.0


From 547f164b4dc6e86b879db7c3e321b2a81de032e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 37/52] fix: tell apart DataFrames whose columns hold different
 types

---
 .../generic_type/pandas_data_frame_data_type_tree.py     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 040c3f3..3f0b082 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -166,10 +166,11 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         return children
 
     @override
-    def _get_hash(self) -> str:
-        if self.strategies.pandas_strategies == "Do not type hint columns":
-            return "pd.DataFrame"
-        return str(self.data.columns)
+    def _get_hash(self) -> Hashable:
+        hashes: List[object] = ["pd.DataFrame"]
+        for name, child in self.children.items():
+            hashes.append((type(name), name, child._get_hash()))
+        return tuple(hashes)
 
     @override
     def _get_str_top_node(self) -> str:
-- 
2.43.0


From f17fa6923fe48508d831d25358bde48051c74f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 38/52] fix: hint classmethod objects as callables without a
 known signature

---
 .../simple_data_type_tree/function_data_type_tree.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 11d9de2..8861127 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -31,7 +31,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         try:
             inspect.signature(self.data)
             return True
-        except ValueError:
+        except (TypeError, ValueError):  # `classmethod` objects cannot be called on their own
             return False
 
     def _get_str_top_node(self) -> str:
-- 
2.43.0


From b29bbb443c3124df1376fe7895032ca1c33799b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 39/52] fix: tell apart callables of the same signature when
 only some return

---
 .../simple_data_type_tree/function_data_type_tree.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 8861127..b75f787 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -72,7 +72,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return str(f"Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]")
         else:
             if self.can_be_inspected:
-                return str(inspect.signature(self.data))
+                return str(inspect.signature(self.data)), self._has_return() is False
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
-- 
2.43.0


From 8ea3c021ac7e853da12c18394446fad1494b5168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:11 +0000
Subject: [PATCH 40/52] fix: hint coroutine functions as such

---
 .../simple_data_type_tree/function_data_type_tree.py  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index b75f787..0bc4db4 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -46,13 +46,14 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         args = str(inspect.signature(self.data))
         self.imports.add("Protocol")
         self.imports.import_all_unkown_symbols_from_signature(args)
+        def_ = "async def" if inspect.iscoroutinefunction(self.data) else "def"
 
         if "->" not in args:
             if self._has_return() is False:
-                return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
+                return f"""class {self.name}(Protocol):\n{TAB}{def_} __call__{args} -> None: ..."""
             self.imports.add("Any")
-            return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
-        return f"""class {self.name}(Protocol):\n{TAB}def __call__{args}: ..."""
+            return f"""class {self.name}(Protocol):\n{TAB}{def_} __call__{args} -> Any: ..."""
+        return f"""class {self.name}(Protocol):\n{TAB}{def_} __call__{args}: ..."""
 
     def get_func_params(self) -> MappingProxyType[str, Parameter]:
         signature = inspect.signature(self.data)
@@ -72,7 +73,9 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return str(f"Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]")
         else:
             if self.can_be_inspected:
-                return str(inspect.signature(self.data)), self._has_return() is False
+                is_async = inspect.iscoroutinefunction(self.data)
+                signature = str(inspect.signature(self.data))
+                return signature, "->" not in signature and self._has_return() is False, is_async
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
-- 
2.43.0


From 04c6e9ef6b187e34fd6343048dc9cb81985be596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:11 +0000
Subject: [PATCH 41/52] fix: hint files as such and do not read them

---
 lazy_type_hint/data_type_tree/data_type_tree.py        |  4 ++++
 .../simple_data_type_tree/io_data_type_tree.py         | 10 ++++++++--
 lazy_type_hint/utils/import_manager.py                 |  2 ++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 1ca07de..6f40695 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -4,6 +4,7 @@ This data can then be parsed to a .py compatible file that will type hint your c
 """
 from __future__ import annotations
 
+import io
 import re
 from abc import ABC, abstractmethod
 from typing import (
@@ -107,6 +108,9 @@ class DataTypeTree(ABC):
         if type(data) in DataTypeTree.subclasses:
             return DataTypeTree.subclasses[type(data)]
 
+        if isinstance(data, io.IOBase):  # Files are iterators as well
+            return DataTypeTree.subclasses[io.IOBase]
+
         for subclass in DataTypeTree.subclasses.values():
             for wrap in subclass.wraps:
                 if isinstance(data, wrap):
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
index 180390f..61c4d06 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
@@ -1,4 +1,5 @@
 import io
+from typing import Hashable
 
 from typing_extensions import override
 
@@ -10,5 +11,10 @@ class IoDataTypeTree(SimpleDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        self.imports.add("TextIO").add("TypeAlias")
-        return f"{self.name}: TypeAlias = TextIO"
+        stream = "TextIO" if isinstance(self.data, io.TextIOBase) else "BinaryIO"
+        self.imports.add(stream).add("TypeAlias")
+        return f"{self.name}: TypeAlias = {stream}"
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return ("io", isinstance(self.data, io.TextIOBase))
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index c0efde3..7696dbb 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -40,6 +40,7 @@ KEYWORDS_AVAILABLE: "TypeAlias" = Literal[
     "NDArray",
     "ModuleType",
     "TextIO",
+    "BinaryIO",
     "annotations",
 ]
 
@@ -79,6 +80,7 @@ class ImportManager:
             "TypeAlias": ("typing_extensions", "TypeAlias"),
             "pd.Scalar": ("pandas._typing", "Scalar"),
             "TextIO": ("typing", "TextIO"),
+            "BinaryIO": ("typing", "BinaryIO"),
             "Iterator": ("typing", "Iterator"),
             "annotations": ("__future__", "annotations"),
         }
-- 
2.43.0


From 44bfa5d0cbe61dccb4eb9174f729b570b5ce62b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:11 +0000
Subject: [PATCH 42/52] fix: write the hints as UTF-8, whatever the locale

---
 lazy_type_hint/generators/lazy_type_hint.py      | 2 +-
 lazy_type_hint/generators/lazy_type_hint_live.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint.py b/lazy_type_hint/generators/lazy_type_hint.py
index 0e3e295..2caa569 100644
--- a/lazy_type_hint/generators/lazy_type_hint.py
+++ b/lazy_type_hint/generators/lazy_type_hint.py
@@ -39,7 +39,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHint(LazyTypeHintABC):
diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 10c9a6d..1de236b 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -167,7 +167,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
-        content = Path(__file__).read_text()
+        content = Path(__file__).read_text(encoding="utf-8")
 
         file_handler = PyFileModifier(content)
         file_handler.remove_all_method_bodies()
@@ -180,7 +180,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             os.makedirs(self._custom_class_dir_path)
 
         path = self._custom_class_dir_path / f"{class_name}.py"
-        path.write_text(string)
+        path.write_text(string, encoding="utf-8")
 
     @final
     def _add_new_class_to_loader_pyi(self, *, new_class: str) -> None:
@@ -251,4 +251,4 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @final
     def _update_this_file_pyi(self) -> None:
-        self._this_file_pyi_path.write_text(str(self.this_file_pyi))
+        self._this_file_pyi_path.write_text(str(self.this_file_pyi), encoding="utf-8")
-- 
2.43.0


From 7ca710dff24d16af6ede91282f5359aa8bba495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:45 +0000
Subject: [PATCH 43/52] fix: import every symbol the signature of a callable
 uses

---
 lazy_type_hint/utils/import_manager.py | 29 ++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index 7696dbb..9cd701f 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -1,7 +1,8 @@
+import ast
 import re
 from collections import defaultdict
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING, Dict, Final, List, Literal, Mapping, Optional, Sequence, Set, Tuple
+from typing import TYPE_CHECKING, Dict, Final, List, Literal, Mapping, Sequence, Set, Tuple
 
 from typing_extensions import TypeGuard
 
@@ -97,17 +98,17 @@ class ImportManager:
         Args:
             signature (str): The signature containing type hints.
         """
-        hints = re.findall(r":\s*([^\s,]+)", signature)
-        for hint in hints:
-            hint_ = str(hint).strip().rstrip().replace("):", "")
-            self._import_symbols(hint_)
-
-        pattern = r"->\s*([^\s,]+|$)"
-        re_output = re.search(pattern, signature)
-        return_value: Optional[str] = None
-        if re_output:
-            return_value = re_output.group(1).rstrip(":")
-            self._import_symbols(return_value)
+        signature = re.sub(r"^def\s+|:$", "", signature.strip())
+        try:
+            function = ast.parse(f"def _{signature}: ...").body[0]
+        except SyntaxError:
+            return
+        if not isinstance(function, ast.FunctionDef):
+            return
+        hints = [node.annotation for node in ast.walk(function.args) if isinstance(node, ast.arg)]
+        for hint in [*hints, function.returns]:
+            if hint is not None:
+                self._import_symbols(ast.unparse(hint))
 
     def _import_symbols(self, symbol: str) -> None:
         """Import all unknown symbols. Including those belonging to generic type hints."""
@@ -119,8 +120,10 @@ class ImportManager:
 
     @staticmethod
     def _cast_symbol(symbol: str) -> str:
-        if symbol in ("List", "Tuple", "Set", "Dict"):
+        if symbol in ("List", "Tuple", "Set", "Dict", "Type"):
             return symbol.lower()
+        if symbol in ("list", "tuple", "set", "dict", "type"):  # These are not imported from anywhere
+            return ""
         return symbol
 
     def _is_importable_symbol(self, symbol: str) -> TypeGuard[KEYWORDS_AVAILABLE]:
-- 
2.43.0


From 44699115712b6d90ff142d7ba58228a47be5c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:49 +0000
Subject: [PATCH 44/52] fix: do not import modules because of the signature of
 a callable

---
 lazy_type_hint/utils/import_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index 9cd701f..7f52153 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -127,7 +127,7 @@ class ImportManager:
         return symbol
 
     def _is_importable_symbol(self, symbol: str) -> TypeGuard[KEYWORDS_AVAILABLE]:
-        return symbol in self.PACKAGE
+        return symbol in self.PACKAGE and "typ" in self.PACKAGE[symbol][0]  # `types`, `typing`, `numpy.typing`...
 
     def format(self, *, line_length: int = 90) -> str:
         import_statements: Dict[str, List[str]] = defaultdict(list)
-- 
2.43.0


From c63f8a7bdbf58bd3f20730fa452dbe5765e48374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:49 +0000
Subject: [PATCH 45/52] fix: leave out of signatures what only their modules
 know

---
 .../function_data_type_tree.py                | 33 +++++++++++++++++--
 lazy_type_hint/utils/import_manager.py        |  4 +++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 0bc4db4..9a23465 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -1,9 +1,10 @@
 import ast
+import builtins
 import inspect
 import textwrap
 from inspect import Parameter
 from types import BuiltinFunctionType, FunctionType, MappingProxyType, MethodType
-from typing import Any, Callable, Hashable, Optional
+from typing import Any, Callable, Hashable, List, Optional
 
 from typing_extensions import override
 
@@ -43,7 +44,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         return self._get_protocol_str()
 
     def _get_protocol_str(self) -> str:
-        args = str(inspect.signature(self.data))
+        args = self._get_signature()
         self.imports.add("Protocol")
         self.imports.import_all_unkown_symbols_from_signature(args)
         def_ = "async def" if inspect.iscoroutinefunction(self.data) else "def"
@@ -55,6 +56,34 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return f"""class {self.name}(Protocol):\n{TAB}{def_} __call__{args} -> Any: ..."""
         return f"""class {self.name}(Protocol):\n{TAB}{def_} __call__{args}: ..."""
 
+    def _get_signature(self) -> str:
+        """Get the signature. What only the module of the callable knows is left out or quoted."""
+        signature = inspect.signature(self.data)
+        parameters: List[Parameter] = []
+        for parameter in signature.parameters.values():
+            if parameter.default is not parameter.empty and not self._is_known(repr(parameter.default)):
+                parameter = parameter.replace(default=...)
+            parameters.append(parameter.replace(annotation=self._quote_if_unknown(parameter.annotation)))
+        return_annotation = self._quote_if_unknown(signature.return_annotation)
+        return str(signature.replace(parameters=parameters, return_annotation=return_annotation))
+
+    def _quote_if_unknown(self, annotation: Any) -> Any:
+        if annotation is Parameter.empty or isinstance(annotation, str):
+            return annotation
+        string = inspect.formatannotation(annotation)
+        if string.startswith("<class "):  # Classes of `typing` itself
+            return annotation.__name__
+        return annotation if self._is_known(string) else string
+
+    def _is_known(self, expression: str) -> bool:
+        """Whether the expression only refers to built-in objects and to what can be imported from `typing`."""
+        try:
+            nodes = list(ast.walk(ast.parse(expression, mode="eval")))
+        except SyntaxError:
+            return False
+        names = {node.id for node in nodes if isinstance(node, ast.Name)}
+        return all(hasattr(builtins, name) or self.imports.can_import(name) for name in names)
+
     def get_func_params(self) -> MappingProxyType[str, Parameter]:
         signature = inspect.signature(self.data)
         return signature.parameters
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index 7f52153..58eb7e6 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -129,6 +129,10 @@ class ImportManager:
     def _is_importable_symbol(self, symbol: str) -> TypeGuard[KEYWORDS_AVAILABLE]:
         return symbol in self.PACKAGE and "typ" in self.PACKAGE[symbol][0]  # `types`, `typing`, `numpy.typing`...
 
+    def can_import(self, symbol: str) -> bool:
+        """Whether the symbol is one of those imported when they are found within a signature."""
+        return self._is_importable_symbol(self._cast_symbol(symbol))
+
     def format(self, *, line_length: int = 90) -> str:
         import_statements: Dict[str, List[str]] = defaultdict(list)
         for keyword in self._set:
-- 
2.43.0


From 920eac8a2e9c48af93de32e83beee6ac483ec7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:22 +0000
Subject: [PATCH 46/52] fix: tell a return annotation from an arrow within a
 default value

---
 .../simple_data_type_tree/function_data_type_tree.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 9a23465..b1e99ac 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -49,7 +49,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         self.imports.import_all_unkown_symbols_from_signature(args)
         def_ = "async def" if inspect.iscoroutinefunction(self.data) else "def"
 
-        if "->" not in args:
+        if not self._has_return_annotation():
             if self._has_return() is False:
                 return f"""class {self.name}(Protocol):\n{TAB}{def_} __call__{args} -> None: ..."""
             self.imports.add("Any")
@@ -104,9 +104,12 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             if self.can_be_inspected:
                 is_async = inspect.iscoroutinefunction(self.data)
                 signature = str(inspect.signature(self.data))
-                return signature, "->" not in signature and self._has_return() is False, is_async
+                return signature, not self._has_return_annotation() and self._has_return() is False, is_async
             return "Callable"
 
+    def _has_return_annotation(self) -> bool:
+        return inspect.signature(self.data).return_annotation is not inspect.Signature.empty
+
     def _has_return(self) -> Optional[bool]:
         try:
             tree = ast.parse(textwrap.dedent(inspect.getsource(self.data)))
-- 
2.43.0


From 4b1302c97494a8d771f832bf5ca2987de53bf89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:00 +0000
Subject: [PATCH 47/52] fix: documentation to leave out of the validation
 starts its line

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 1de236b..4c2007c 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -154,7 +154,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
-        string = re.sub(r'"""(?:\\.|[^\\])*?"""', "", string, flags=re.DOTALL)
+        string = re.sub(r'^[ \t]*"""(?:\\.|[^\\])*?"""', "", string, flags=re.DOTALL | re.MULTILINE)
         return "\n".join(line for line in string.splitlines() if line.strip())
 
     @classmethod
-- 
2.43.0


From b473d268d6dddccda5f79bef2e9092910b0a7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:33 +0000
Subject: [PATCH 48/52] fix: DataFrames whose labels are tuples but no levels
 can be hinted

---
 .../generic_type/pandas_data_frame_data_type_tree.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 3f0b082..decb9d0 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -151,6 +151,9 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
             return {}
         if len(self.data.columns) > 1 and len(set(self.data.columns)) == 1:
             return {}
+        # Tuples that are no levels cannot be accessed by their first element
+        if self.can_be_accessed_multilevel and self.data.columns.nlevels == 1:
+            return {}
 
         columns_processed: Set[Union[bool, str, int]] = set()
         for column in data.columns:
-- 
2.43.0


From fabddccabf14414ca6cefa9c2bdf8a07c8e2ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:02 +0000
Subject: [PATCH 49/52] fix: what a function returns is not read from the one
 it wraps

---
 .../simple_data_type_tree/function_data_type_tree.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index b1e99ac..e18708e 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -112,7 +112,8 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
 
     def _has_return(self) -> Optional[bool]:
         try:
-            tree = ast.parse(textwrap.dedent(inspect.getsource(self.data)))
+            code = getattr(self.data, "__code__", self.data)  # Not the one of a function that is wrapped
+            tree = ast.parse(textwrap.dedent(inspect.getsource(code)))
         except:  # noqa: E722
             return None
         return any(isinstance(node, (ast.Return, ast.Yield, ast.YieldFrom)) for node in ast.walk(tree))
-- 
2.43.0


From 029c4214208e6ba2e8a6f96048af4a6afc50f8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:08 +0000
Subject: [PATCH 50/52] fix: the element types of arrays are named as numpy
 names them

---
 .../simple_data_type_tree/numpy_data_type_tree.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
index e55a309..3d4aadc 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
@@ -14,8 +14,8 @@ class NumpyDataTypeTree(SimpleDataTypeTree):
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("NDArray").add("numpy").add("TypeAlias")
-        return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype}]"'
+        return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype.type.__name__}]"'
 
     @override
     def _get_hash(self) -> Hashable:
-        return ("ndarray", str(self.data.dtype))
+        return ("ndarray", self.data.dtype.type.__name__)
-- 
2.43.0


From f76da16914647b19de01e5d55d68fedf0c9e18aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:49 +0000
Subject: [PATCH 51/52] fix: subclasses of frozenset are hinted as frozen sets

---
 .../data_type_tree/generic_type/set_data_type_tree.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 26662e0..fb8ac91 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -26,7 +26,7 @@ class SetDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        container: Literal["FrozenSet", "set"] = "FrozenSet" if self.holding_type is frozenset else "set"
+        container: Literal["FrozenSet", "set"] = "FrozenSet" if issubclass(self.holding_type, frozenset) else "set"
         self.imports.add(container).add("TypeAlias")
 
         if container == "FrozenSet":
@@ -35,7 +35,7 @@ class SetDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: Set[object] = {frozenset if self.holding_type is frozenset else set}
+        hashes: Set[object] = {frozenset if issubclass(self.holding_type, frozenset) else set}
         for child in self:
             hashes.add(child._get_hash())
         return frozenset(hashes)
-- 
2.43.0


From 66d5261b116915abfbb87734b6e744a3dc9d8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:27 +0000
Subject: [PATCH 52/52] fix: apostrophes within YAML values and keys hid their
 comments

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 533a172..62e3629 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -234,7 +234,11 @@ class YamlFileModifier:
         between_quotes = False
         for i, char in enumerate(line):
             if char in not_between:
-                between_quotes = not between_quotes
+                next_char = line[i + 1 : i + 2]
+                is_apostrophe = line[max(i - 1, 0) : i].isalnum() and (
+                    next_char.isalnum() or (not between_quotes and next_char in ("", " "))
+                )
+                between_quotes = between_quotes if is_apostrophe else not between_quotes
             elif char == occurrence and not between_quotes:
                 return i
         return None
-- 
2.43.0

