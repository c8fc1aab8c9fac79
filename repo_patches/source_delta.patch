From 4aa11a285f787946cefe32446593ec69c402794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:33 +0000
Subject: [PATCH 01/83] fix: combining boolean lists with 'xor' behaved as 'or'

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 3e21c2f..a970a26 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1045,7 +1045,7 @@ class FiltersList(DessiaObject):
         if logical_operator == 'or':
             return [any(booleans_tuple) for booleans_tuple in zip(*booleans_lists)]
         if logical_operator == 'xor':
-            return [bool(sum(booleans_tuple)) for booleans_tuple in zip(*booleans_lists)]
+            return [sum(map(bool, booleans_tuple)) % 2 == 1 for booleans_tuple in zip(*booleans_lists)]
         raise NotImplementedError(f"'{logical_operator}' str for 'logical_operator' attribute is not a use case")
 
     def get_booleans_index(self, dobjects_list: List[DessiaObject]):
-- 
2.43.0


From 01537bed259149f822277ce7f897b89f5ec51dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:33 +0000
Subject: [PATCH 02/83] fix: data equality of dictionaries ignored the extra
 keys of the second one

---
 dessia_common/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index a970a26..46932f4 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1189,6 +1189,8 @@ def data_eq(value1, value2):
 
 def dict_data_eq(dict1, dict2):
     """ Returns True if two dictionaries are equal on data equality, False otherwise. """
+    if len(dict1) != len(dict2):
+        return False
     for key, value in dict1.items():
         if key not in dict2:
             return False
-- 
2.43.0


From 4a6b80a9bc2f78bd46ab322d92c3203c1dee5710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:33 +0000
Subject: [PATCH 03/83] fix: dictionary diff missed keys absent from the bigger
 dictionary and swapped the compared values

---
 dessia_common/utils/diff.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index 043c9a0..4beeecc 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -139,21 +139,17 @@ def dict_diff(dict1, dict2, path='#'):
     """ Returns diff between two dictionaries. """
     diff_object = Diff([], [], [])
 
-    dict_ = dict1
-    other_dict = dict2
-    first_object = False
-    if len(dict2) > len(dict1):
-        dict_ = dict2
-        other_dict = dict1
-        first_object = True
-    for key, value in dict_.items():
+    for key, value in dict1.items():
         path_key = f'{path}/{key}'
-        if key not in other_dict:
-            diff_object.missing_attributes.append(MissingAttribute(path=path_key,
-                                                                   missing_in_first_object=first_object))
+        if key not in dict2:
+            diff_object.missing_attributes.append(MissingAttribute(path=path_key, missing_in_first_object=False))
         else:
-            diff_key = diff(value, other_dict[key], path=path_key)
+            diff_key = diff(value, dict2[key], path=path_key)
             diff_object += diff_key
+    for key in dict2:
+        if key not in dict1:
+            diff_object.missing_attributes.append(MissingAttribute(path=f'{path}/{key}',
+                                                                   missing_in_first_object=True))
     return diff_object
 
 
-- 
2.43.0


From a0760a4638cb6a8244f81ed496460e2671eb7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 04/83] fix: docx exports declared with the decorator were
 announced as text

---
 dessia_common/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/decorators.py b/dessia_common/decorators.py
index 28dfc5d..7bedfce 100644
--- a/dessia_common/decorators.py
+++ b/dessia_common/decorators.py
@@ -158,7 +158,7 @@ def export_docx(selector: str):
 
     :param str selector: Unique name that identifies the export method.
     """
-    return export_decorator(selector, 'docx', is_text=True)
+    return export_decorator(selector, 'docx', is_text=False)
 
 
 def export_xlsx(selector: str):
-- 
2.43.0


From e93c46e2303d6a34e52566754fa2faf5e3bc3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 05/83] fix: writing a spreadsheet to a path opened the file
 for reading

---
 dessia_common/exports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index dcd2755..a2993be 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -262,7 +262,7 @@ class XLSXWriter:
             filepath += '.xlsx'
             print(f"Changing name to {filepath}")
 
-        with open(filepath, 'rb') as file:
+        with open(filepath, 'wb') as file:
             self.save_to_stream(file)
 
     def save_to_stream(self, stream):
-- 
2.43.0


From f4e91c252b7cf709b053556c86d0f67f94793719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 06/83] fix: reading a text file from a stream lost the class
 of the file

---
 dessia_common/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/files.py b/dessia_common/files.py
index f20d390..3e546fa 100644
--- a/dessia_common/files.py
+++ b/dessia_common/files.py
@@ -82,7 +82,7 @@ class StringFile(io.StringIO):
     @classmethod
     def from_stream(cls, stream_file):
         """ Get a file from a stream file. """
-        stream = StringFile()
+        stream = cls()
         stream.write(stream_file.read().decode('utf-8'))
         stream.seek(0)
         return stream
-- 
2.43.0


From 4230ba38ea42f44e2d7bc22c52f7e749a6d32d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 07/83] fix: loading an object from a text stream failed

---
 dessia_common/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 46932f4..833e435 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -264,7 +264,10 @@ class DessiaObject(SerializableObject):
 
         Should be consistent with save_to_stream method.
         """
-        dict_ = json.loads(stream.read().decode('utf-8'))
+        content = stream.read()
+        if isinstance(content, bytes):
+            content = content.decode('utf-8')
+        dict_ = json.loads(content)
         return cls.dict_to_object(dict_)
 
     @classmethod
-- 
2.43.0


From f67b00934cb4a3f25e4fc67aa980a9974e1234ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 08/83] fix: copying a class method or a view type changed its
 class

---
 dessia_common/typings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/typings.py b/dessia_common/typings.py
index b68bdc8..09f91c5 100644
--- a/dessia_common/typings.py
+++ b/dessia_common/typings.py
@@ -31,7 +31,7 @@ class MethodType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return MethodType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     def get_method(self):
         """ Helper to get real method from class_ and method name. """
@@ -71,7 +71,7 @@ class AttributeType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return AttributeType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     @property
     def type_(self):
-- 
2.43.0


From 832b5bab8514c7b01978fd8952901cebd0fafd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 09/83] fix: copying a workflow variable dropped its label and
 position

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e09bb0a..d7d6812 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -147,7 +147,8 @@ class Variable(DessiaObject):
         if memo is None:
             memo = {}
         default_value = deepcopy_value(self.default_value, memo=memo) if self.has_default_value else UNDEFINED
-        variable = Variable(type_=self.type_, default_value=default_value, name=self.name)
+        variable = Variable(type_=self.type_, default_value=default_value, name=self.name, label=self.label,
+                            position=self.position)
         if self.locked:
             variable.lock()
         return variable
-- 
2.43.0


From 194fab88c1d4b90ceb54427388fc49c7509e5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 10/83] fix: hashing a step without displayed variable failed

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index d7d6812..b13bca4 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -302,7 +302,7 @@ class Step:
 
     def __hash__(self):
         return (hash(self.label) + 43 * len(self.inputs) + 19 * len(self.group_inputs) + hash(self.display_setting)
-                + len(self.documentation) + self.display_variable_index)
+                + len(self.documentation) + hash(self.display_variable_index))
 
     def __eq__(self, other: 'Step'):
         same_label = self.label == other.label
-- 
2.43.0


From 1104d5af513b62b37e4a48ebb250706e5e3e158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 11/83] fix: steps with different inputs or documentations were
 considered equal

---
 dessia_common/workflow/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index b13bca4..0114b1f 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -306,10 +306,12 @@ class Step:
 
     def __eq__(self, other: 'Step'):
         same_label = self.label == other.label
-        same_inputs = all(i.equivalent(other_i) for i, other_i in zip(self.inputs, other.inputs))
-        same_group = all(i.equivalent(other_i) for i, other_i in zip(self.group_inputs, other.group_inputs))
+        same_inputs = len(self.inputs) == len(other.inputs) \
+            and all(i.equivalent(other_i) for i, other_i in zip(self.inputs, other.inputs))
+        same_group = len(self.group_inputs) == len(other.group_inputs) \
+            and all(i.equivalent(other_i) for i, other_i in zip(self.group_inputs, other.group_inputs))
         same_display = self.display_setting == other.display_setting
-        same_documentation = len(self.documentation) == len(other.documentation)
+        same_documentation = self.documentation == other.documentation
         same_variable = self.display_variable_index == other.display_variable_index
         return same_label and same_inputs and same_group and same_display and same_documentation and same_variable
 
-- 
2.43.0


From 8825ce810b144ac2ea07cc7826d5eb5879dd3c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 12/83] fix: copying a workflow dropped its description and
 documentation

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 0114b1f..5b0ba94 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -555,7 +555,8 @@ class Workflow(Block):
 
         # Steps need a workflow that has pipe in order to handle NBVs and detached variables
         steps = [self.copy_step(copied_workflow=piped_workflow, step=s) for s in self.steps]
-        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, name=self.name)
+        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, description=self.description,
+                            documentation=self.documentation, name=self.name)
 
         # Locking variables
         for i, input_ in enumerate(self.inputs):
-- 
2.43.0


From cd4da6c955ace2af5be605cb2a6e7c6cedbaf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 13/83] fix: copying a workflow dropped labels and default
 values of its inputs and shared the locked ones

---
 dessia_common/workflow/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 5b0ba94..5501262 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -558,10 +558,15 @@ class Workflow(Block):
         workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, description=self.description,
                             documentation=self.documentation, name=self.name)
 
-        # Locking variables
-        for i, input_ in enumerate(self.inputs):
+        # Configuring inputs
+        for input_, copied_input in zip(self.inputs, workflow.inputs):
+            copied_input.label = input_.label
+            if input_.has_default_value:
+                copied_input.default_value = deepcopy_value(input_.default_value, memo)
+            else:
+                copied_input.default_value = UNDEFINED
             if input_.locked:
-                workflow.inputs[i].lock(input_.default_value)
+                copied_input.lock()
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
-- 
2.43.0


From 622dd5a7ce07b8d6f39a9ef3b95c56f899c451b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 14/83] fix: default run arguments were indexed by variable
 instead of input and serialized twice

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 5501262..1928143 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -843,7 +843,7 @@ class Workflow(Block):
         return {i: input_.default_value for i, input_ in enumerate(self.inputs) if input_.has_default_value}
 
     def _run_dict(self) -> JsonSerializable:
-        return {str(self.variables.index(i)): serialize(v) for i, v in self.default_values.items()}
+        return {str(i): serialize(v) for i, v in self.default_values.items()}
 
     def method_dict(self, method_name: str = None) -> Dict:
         """ Wrapper method to get dictionaries of run method. """
-- 
2.43.0


From 6af2bd7565a1bc4fdd6acad53fd0623d9adcf575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 15/83] fix: checking the validity of a piped workflow failed

---
 dessia_common/workflow/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 1928143..4491abb 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1281,15 +1281,15 @@ class Workflow(Block):
         for pipe in self.pipes:
             upstream = pipe.input_variable.type_
             downstream = pipe.output_variable.type_
-            if upstream.type_ != downstream.type_:
+            if upstream != downstream:
                 try:
-                    issubclass(upstream.type_.type_, downstream.type_)
+                    issubclass(upstream, downstream)
                 except TypeError as error:  # TODO: need of a real typing check
                     consistent = True
                     if not consistent:
-                        raise TypeError(f"Inconsistent pipe type from pipe input '{upstream.name}'"
-                                        f"to pipe output '{downstream.name}': "
-                                        f"'{upstream.type_}' incompatible with '{downstream.type_}'") from error
+                        raise TypeError(f"Inconsistent pipe type from pipe input '{pipe.input_variable.name}'"
+                                        f"to pipe output '{pipe.output_variable.name}': "
+                                        f"'{upstream}' incompatible with '{downstream}'") from error
         return True
 
     def package_mix(self) -> Dict[str, float]:
-- 
2.43.0


From abaf11eebda19272a2586cbdb3a5c37d4fc7458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:15 +0000
Subject: [PATCH 16/83] fix: finding an export format of a workflow state from
 its selector failed

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 4491abb..e26dfff 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2110,7 +2110,7 @@ class WorkflowState(DessiaObject):
     def export_format_from_selector(self, selector: str):
         """ Get Workflow State format from given selector. """
         for export_format in self.workflow.blocks_export_formats:
-            if export_format["selector"] == selector:
+            if export_format.selector == selector:
                 return export_format
         raise ValueError(f"No block defines an export with the selector '{selector}'")
 
-- 
2.43.0


From 4c83b0b599bf75acb3311b37eb1d3f3296b56914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 17/83] fix: the Sum block summed the variables instead of
 their values

---
 dessia_common/workflow/blocks.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 632d8e5..9788ff7 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1322,12 +1322,8 @@ class Sum(Block):
         return block
 
     def evaluate(self, values, **kwargs):
-        """
-        Sum input values.
-
-        TODO : This cannot work, we are summing a dictionary
-        """
-        return [sum(values)]
+        """ Sum input values. """
+        return [sum(values[i] for i in self.inputs)]
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-- 
2.43.0


From 3fce81cbb3cacf0c444f2a660552fa533b86535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 18/83] fix: the script of a Filter block did not close the
 list of filters

---
 dessia_common/workflow/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 9788ff7..6a90314 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -683,7 +683,7 @@ class Filter(Block):
         filter_variables = [f"DessiaFilter("
                             f"attribute='{f.attribute}', comparison_operator='{f.comparison_operator}', "
                             f"bound={f.bound}, name='{f.name}')" for f in self.filters]
-        filters = f"[{','.join(filter_variables)}"
+        filters = f"[{','.join(filter_variables)}]"
         script = f"Filter(filters={filters}, logical_operator='{self.logical_operator}', {self.base_script()})"
 
         imports = [DessiaFilter("", "", 0).full_classname, self.full_classname]
-- 
2.43.0


From 140ac747d9b1b226a7b35759d632f687b44496bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 19/83] fix: filter blocks with different logical operators
 were considered equivalent

---
 dessia_common/workflow/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 6a90314..d9ff636 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -657,7 +657,8 @@ class Filter(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        return super().equivalent(other) and self.filters == other.filters
+        return super().equivalent(other) and self.filters == other.filters \
+            and self.logical_operator == other.logical_operator
 
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Filter':
-- 
2.43.0


From 8004293a82cf9b06f3faa5040298232bac1648f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 20/83] fix: instantiation blocks of different classes were
 considered equivalent

---
 dessia_common/workflow/blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index d9ff636..f127c33 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -98,8 +98,8 @@ class InstantiateModel(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.model_class.__class__.__name__
-        other_classname = other.model_class.__class__.__name__
+        classname = self.model_class.__name__
+        other_classname = other.model_class.__name__
         return super().equivalent(other) and classname == other_classname
 
     @classmethod
-- 
2.43.0


From 75887d620d90ca001ee4ac76f23766742e073400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 21/83] fix: attribute setting blocks of different classes were
 considered equivalent

---
 dessia_common/workflow/blocks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index f127c33..06283ab 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1269,7 +1269,11 @@ class SetModelAttribute(Block):
 
     def equivalent(self, other):
         """ Returns whether the block is equivalent to the other given or not. """
-        return super().equivalent(other) and self.attribute_type.name == other.attribute_type.name
+        classname = self.attribute_type.class_.__name__
+        other_classname = other.attribute_type.class_.__name__
+        same_model = classname == other_classname
+        same_attribute = self.attribute_type.name == other.attribute_type.name
+        return super().equivalent(other) and same_model and same_attribute
 
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'SetModelAttribute':
-- 
2.43.0


From 3f4791f4b8b7bc68eb7a5c966e162a99f13797c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 22/83] fix: the script of an attribute setting block did not
 import what it names

---
 dessia_common/workflow/blocks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 06283ab..dc29421 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1294,7 +1294,10 @@ class SetModelAttribute(Block):
         script = f"SetModelAttribute(attribute_type=AttributeType(" \
                  f"{self.attribute_type.class_.__name__}, name=\"{self.attribute_type.name}\")" \
                  f", {self.base_script()})"
-        return ToScriptElement(declaration=script, imports=[self.full_classname])
+        imports = [full_classname(object_=self.attribute_type, compute_for="instance"),
+                   full_classname(object_=self.attribute_type.class_, compute_for="class"),
+                   self.full_classname]
+        return ToScriptElement(declaration=script, imports=imports)
 
 
 class Sum(Block):
-- 
2.43.0


From 685f40ccbcbf37cb7f7a1cf37689404bc44ed4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 23/83] fix: the script of a string concatenation block lost
 its position

---
 dessia_common/workflow/blocks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index dc29421..e843805 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1407,8 +1407,7 @@ class ConcatenateStrings(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"ConcatenateStrings(number_elements={self.number_elements}, " \
-                 f"separator='{self.separator}', " \
-                 f"name='{self.name}')"
+                 f"separator='{self.separator}', {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
-- 
2.43.0


From 6c84bd938ac5d26854d8dce178343477bb01db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 24/83] fix: the script of a deprecated multiplot block built
 another block

---
 dessia_common/workflow/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index e843805..f545f66 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -827,7 +827,7 @@ class DeprecatedMultiPlot(Display):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"MultiPlot(attributes={self.attributes}, {self.base_script()})"
+        script = f"DeprecatedMultiPlot(attributes={self.attributes}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
-- 
2.43.0


From 2f6f5f70a180123959c1d35206249c5f15c8eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 25/83] fix: reading an export block changed the type of its
 method

---
 dessia_common/workflow/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index f545f66..0086e4b 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1444,7 +1444,7 @@ class Export(Block):
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Export':
         """ Override base dict_to_object in order to force custom inputs from workflow builder. """
-        method_type = ClassMethodType.dict_to_object(dict_["method_type"])
+        method_type = MethodType.dict_to_object(dict_["method_type"])
         block = cls(method_type=method_type, text=dict_["text"], extension=dict_["extension"],
                     filename=dict_["filename"], name=dict_["name"], position=dict_["position"])
         block.deserialize_variables(dict_)
-- 
2.43.0


From 04f6fcecb279097a021a8f972ced187044359e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 26/83] fix: reading an archive block with deserialization
 arguments failed

---
 dessia_common/workflow/blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 0086e4b..2ba17bf 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -60,8 +60,8 @@ def output_from_function(function, name: str = "result output"):
 
 def set_block_variable_names_from_dict(func):
     """ Inspect function arguments to compute black variable names. """
-    def func_wrapper(cls, dict_):
-        obj = func(cls, dict_)
+    def func_wrapper(cls, dict_, **kwargs):
+        obj = func(cls, dict_, **kwargs)
         if "input_names" in dict_:
             for input_name, input_ in zip(dict_["input_names"], obj.inputs):
                 input_.name = input_name
-- 
2.43.0


From bfdd6def137daf517495092cf44d3e2b4e611210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 27/83] fix: reading a class method block modified the given
 dictionary

---
 dessia_common/workflow/blocks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 2ba17bf..b5b6492 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -172,10 +172,11 @@ class ClassMethod(Block):
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'ClassMethod':
         """ Override base dict_to_object in order to force custom inputs from workflow builder. """
         # Backward compatibility dessia_common < 0.14.0
-        if "object_class" not in dict_["method_type"]:
-            dict_["method_type"]["object_class"] = "dessia_common.typings.ClassMethodType"
+        method_type_dict = dict_["method_type"]
+        if "object_class" not in method_type_dict:
+            method_type_dict = {**method_type_dict, "object_class": "dessia_common.typings.ClassMethodType"}
 
-        method_type = ClassMethodType.dict_to_object(dict_["method_type"])
+        method_type = ClassMethodType.dict_to_object(method_type_dict)
         block = cls(method_type=method_type, name=dict_["name"], position=dict_["position"])
         block.deserialize_variables(dict_)
         return block
-- 
2.43.0


From 72ef1a580cdaffbdd4739ecee6ba2afd5c151e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 28/83] fix: copies of multiplot blocks shared their list of
 attributes

---
 dessia_common/workflow/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index b5b6492..332a368 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -855,7 +855,7 @@ class MultiPlot(Display):
                          selector=selector, position=position)
 
     def __deepcopy__(self, memo=None):
-        return MultiPlot(selector_name=self.selector.name, attributes=self.attributes,
+        return MultiPlot(selector_name=self.selector.name, attributes=list(self.attributes),
                          load_by_default=self.load_by_default, name=self.name, position=self.position)
 
     def equivalent(self, other):
-- 
2.43.0


From dcebbc36d0660c2177f7941d7f91a855a5a958cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 29/83] fix: copies of multi object blocks shared their
 configurations

---
 dessia_common/workflow/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 332a368..25baf8f 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -951,7 +951,8 @@ class MultiObject(Display):
         self.inputs[0].name = "Sequence"
 
     def __deepcopy__(self, memo=None):
-        return MultiObject(selector_name=self.selector.name, configurations=self.configurations,
+        configurations = [c.copy(deep=True, memo=memo) for c in self.configurations]
+        return MultiObject(selector_name=self.selector.name, configurations=configurations,
                            load_by_default=self.load_by_default, name=self.name, position=self.position)
 
     def equivalent(self, other: 'MultiObject'):
-- 
2.43.0


From bc99c08682023cb5f2f19a71e45ec533d4a0663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 30/83] fix: export blocks with different settings were
 considered equivalent

---
 dessia_common/workflow/blocks.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 25baf8f..a2f5e06 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1443,6 +1443,15 @@ class Export(Block):
                   Variable(type_=str, default_value=filename, name="Filename")]
         super().__init__(inputs=inputs, outputs=[output], name=name, position=position)
 
+    def equivalent(self, other):
+        """ Return whether the block is equivalent to the other given or not. """
+        if not super().equivalent(other):
+            return False
+        same_class = self.method_type.class_.__name__ == other.method_type.class_.__name__
+        same_method = self.method_type.name == other.method_type.name
+        same_file = self.filename == other.filename and self.extension == other.extension and self.text == other.text
+        return same_class and same_method and same_file
+
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Export':
         """ Override base dict_to_object in order to force custom inputs from workflow builder. """
-- 
2.43.0


From 61e28874e04d5babe73ea70260edd21d63bb0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 31/83] fix: archive blocks with different settings were
 considered equivalent

---
 dessia_common/workflow/blocks.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index a2f5e06..a2d2628 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1508,6 +1508,11 @@ class Archive(Block):
         inputs.append(Variable(type_=str, default_value=filename, name="Filename"))
         super().__init__(inputs=inputs, outputs=[Variable(name="Archive")], name=name, position=position)
 
+    def equivalent(self, other):
+        """ Return whether the block is equivalent to the other given or not. """
+        return super().equivalent(other) and self.number_exports == other.number_exports \
+            and self.filename == other.filename
+
     def to_dict(self, use_pointers: bool = True, memo=None, path: str = "#", id_method=True, id_memo=None,
                 **kwargs):
         """ Serialize the block with custom logic. """
-- 
2.43.0


From 16f08481455a87e1e7b365a94ea262a50e1ef6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 32/83] fix: display blocks with different selectors were
 considered equivalent

---
 dessia_common/workflow/blocks.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index a2d2628..e014d61 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -708,6 +708,14 @@ class Display(Block):
         self.load_by_default = load_by_default
         self.selector = selector
 
+    def equivalent(self, other):
+        """ Return whether the block is equivalent to the other given or not. """
+        if not super().equivalent(other):
+            return False
+        same_class = getattr(self.selector, "class_", None) == getattr(other.selector, "class_", None)
+        same_name = getattr(self.selector, "name", self.selector) == getattr(other.selector, "name", other.selector)
+        return same_class and same_name and self.load_by_default == other.load_by_default
+
     @property
     def type_(self) -> str:
         """ Get display's type_. """
-- 
2.43.0


From 3165715383cf974734ca47eec21d1e458c19926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 33/83] fix: copies of a workflow state shared the values of
 its pipes

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e26dfff..ff9edbe 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1691,7 +1691,7 @@ class WorkflowState(DessiaObject):
         for pipe, value in self.values.items():
             variable_indices = self.workflow.pipe_variable_indices(pipe)
             copied_pipe = workflow.pipe_from_variable_indices(*variable_indices)
-            values[copied_pipe] = value
+            values[copied_pipe] = deepcopy_value(value=value, memo=memo)
 
         activated_items = {}
         for item, value in self.activated_items.items():
-- 
2.43.0


From e90e1e9b9f78e0c9d0ef23fa11aead3812c23528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 34/83] fix: rendering a workflow state to markdown failed

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index ff9edbe..c08997e 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2136,7 +2136,7 @@ class WorkflowState(DessiaObject):
     def to_markdown(self, **kwargs) -> str:
         """ Render to markdown. """
         template = dessia_common.templates.workflow_state_markdown_template
-        execution_info = self.execution_info.to_markdown(self.workflow.blocks)
+        execution_info = self.execution_info.to_markdown(blocks=self.workflow.blocks)
         return template.substitute(name=self.name, class_=self.__class__.__name__, progress=100 * self.progress,
                                    workflow_name=self.workflow.name, execution_info=execution_info)
 
-- 
2.43.0


From 9c8c4d57ee24f6779723dbf5d50baa0f62635721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 35/83] fix: running a workflow run again without callback
 failed

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index c08997e..a23e64c 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2206,7 +2206,7 @@ class WorkflowRun(WorkflowState):
         """ Get display settings from given selector. """
         return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
 
-    def run_again(self, input_values, progress_callback=None, name=None):
+    def run_again(self, input_values, progress_callback=lambda x: None, name=None):
         """ Execute workflow again with given inputs. """
         return self.workflow.run(input_values=input_values, verbose=False,
                                  progress_callback=progress_callback, name=name)
-- 
2.43.0


From 5b2b76194f1f1ddc864a7da549e802d538ff52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:42 +0000
Subject: [PATCH 36/83] fix: reading a step without display lost its displayed
 variable

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index a23e64c..5c461bf 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -325,7 +325,8 @@ class Step:
     @classmethod
     def dict_to_object(cls, dict_, inputs: List[Variable], group_inputs: List[Variable]):
         step = cls(label=dict_["label"], inputs=inputs, group_id=dict_.get("group_id", None),
-                   documentation=dict_.get("documentation", ""), id_=dict_.get("id", None))
+                   documentation=dict_.get("documentation", ""),
+                   display_variable_index=dict_.get("display_variable_index", None), id_=dict_.get("id", None))
         step.group_inputs = group_inputs
         if dict_["display_setting"]:
             display_setting = DisplaySetting.dict_to_object(dict_["display_setting"])
-- 
2.43.0


From 7b08b29d22bf6d824bef9b32b35011a2440b2173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:44 +0000
Subject: [PATCH 37/83] fix: workflows shared the variable that holds the name
 of their results

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 5c461bf..267f56f 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -517,7 +517,7 @@ class Workflow(Block):
             found_name = variable.name == RESULT_VARIABLE_NAME
             i += 1
         if not found_name:
-            self.detached_variables.insert(0, NAME_VARIABLE)
+            self.detached_variables.insert(0, NAME_VARIABLE.copy())
 
     def _equivalent_pipes(self, other_wf) -> bool:
         pipes = []
-- 
2.43.0


From ed0e879d9fb2a41cff8290f2a422ea031a69d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:44 +0000
Subject: [PATCH 38/83] fix: issues found on the attributes of a schema were
 dropped

---
 dessia_common/schemas/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 380665c..d704aa3 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -172,7 +172,7 @@ class SchemaAttributeCollection:
     def check_list(self, issues: CheckList):
         for attribute in self.attributes:
             schema = self.property_schemas[attribute.name]
-            issues += schema.check_list()
+            issues.checks.extend(schema.check_list().checks)
 
     def to_dict(self):
         return {"properties": [self.chunk(a) for a in self._attributes]}
-- 
2.43.0


From 08e03bf7c03e75038c499fba375e8bc85d899588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:44 +0000
Subject: [PATCH 39/83] fix: checks of builtin types ignored the requested
 level

---
 dessia_common/checks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/checks.py b/dessia_common/checks.py
index 5b25f29..cde8c2f 100644
--- a/dessia_common/checks.py
+++ b/dessia_common/checks.py
@@ -142,11 +142,11 @@ def type_check(value, expected_type, level: str = 'error'):
     This is experimental!
     """
     if expected_type is int:
-        return is_int(value)
+        return is_int(value, level=level)
     if expected_type is float:
-        return is_float(value)
+        return is_float(value, level=level)
     if expected_type is str:
-        return is_str(value)
+        return is_str(value, level=level)
 
     if not isinstance(value, expected_type):
         return CheckList([FailedCheck(f'Value {value} is not of type {expected_type}')])
-- 
2.43.0


From 88e19cc9f8f0d6f6fe11c71df1024ae1dbd48b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:44 +0000
Subject: [PATCH 40/83] fix: the zip export returned a closed member instead of
 the archive

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 833e435..339cb2d 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -575,7 +575,7 @@ class DessiaObject(SerializableObject):
         archive.filename = archive_name
         with zipfile.ZipFile(archive, 'w', compression=zipfile.ZIP_DEFLATED) as zip_archive:
             for value in streams:
-                archive = dcf.generate_archive(zip_archive=zip_archive, value=value)
+                dcf.generate_archive(zip_archive=zip_archive, value=value)
         return [archive]
 
     def to_zip(self, filepath: str):
-- 
2.43.0


From fbf5d615cde0d4cd927ac863ce5e2dbde2b91b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:44 +0000
Subject: [PATCH 41/83] fix: the float index of a value in a decreasing list
 was mirrored

---
 dessia_common/utils/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/utils/interpolation.py b/dessia_common/utils/interpolation.py
index b928f2b..ef57411 100644
--- a/dessia_common/utils/interpolation.py
+++ b/dessia_common/utils/interpolation.py
@@ -10,7 +10,7 @@ def istep_from_value_on_list(list_: List[float], value: float,
     for ipoint, (point1, point2) in enumerate(zip(list_[:-1], list_[1:])):
         point1_s, point2_s = sorted((point1, point2))
         if point1_s <= value <= point2_s:
-            alpha = (value - point1_s) / (point2_s - point1_s)
+            alpha = (value - point1) / (point2 - point1)
             if alpha < 0 or alpha > 1:
                 raise ValueError
             return ipoint + alpha
-- 
2.43.0


From d5a20e32cc6021c63ec1e293fc1d32e09f619990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:25 +0000
Subject: [PATCH 42/83] fix: reading a workflow unlocked its non-block
 variables

---
 dessia_common/workflow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 267f56f..e508a9e 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2316,6 +2316,9 @@ def initialize_workflow(dict_, global_dict, pointers_memo) -> Workflow:
     if 'nonblock_variables' in dict_:
         nonblock_variables = [deserialize(serialized_element=d, global_dict=global_dict, pointers_memo=pointers_memo)
                               for d in dict_['nonblock_variables']]
+        for variable, variable_dict in zip(nonblock_variables, dict_['nonblock_variables']):
+            if variable_dict.get("locked"):
+                variable.lock()
     else:
         nonblock_variables = []
 
-- 
2.43.0


From 40bcb859f89b260d1cb834f7cfa3aca9350b087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:48 +0000
Subject: [PATCH 43/83] fix: a partly run workflow state differed from the one
 read from its dictionary, because its hash counted what is not serialized

---
 dessia_common/workflow/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e508a9e..98c272d 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1714,9 +1714,9 @@ class WorkflowState(DessiaObject):
     def _data_hash(self):
         workflow = hash(self.workflow)
         output = choose_hash(self.output_value)
-        input_values = sum(i * choose_hash(v) for (i, v) in self.input_values.items())
-        values = len(self.values) * 7
-        return (workflow + output + input_values + values) % 1000000000
+        input_values = sum(i * choose_hash(v) for (i, v) in self.input_values.items()
+                           if not self.workflow.inputs[i].is_file_related)
+        return (workflow + output + input_values) % 1000000000
 
     def _data_eq(self, other_object: 'WorkflowState'):
         if not (self.__class__.__name__ == other_object.__class__.__name__
-- 
2.43.0


From 73f9f1034a0b63a53de8b6e4c23bea0c4c68b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:40 +0000
Subject: [PATCH 44/83] fix: reordering step inputs with a repeated index
 duplicated an input

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 98c272d..06db76d 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1451,7 +1451,7 @@ class Workflow(Block):
         """ Callable from frontend. """
         step = self.steps[step_index]
         step_input_indices = [self.input_index(v) for v in step.inputs]
-        if set(step_input_indices) != set(order):
+        if sorted(step_input_indices) != sorted(order):
             raise ValueError(f"Reordering inputs of step '{step.label}' failed. "
                              f"Given order '{order}' does not match step inputs of indices '{step_input_indices}'")
         step.inputs = [self.inputs[i] for i in order]
-- 
2.43.0


From 03fb37124c6705324a85b56fbc1c6c8d9659c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:40 +0000
Subject: [PATCH 45/83] fix: reordering steps with an index and its negative
 counterpart duplicated a step

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 06db76d..e2ba715 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1477,7 +1477,7 @@ class Workflow(Block):
         if len(order) != len(self.steps):
             raise ValueError(f"Given order '{order}' of length '{len(order)}' is missing items."
                              f"It should be of length '{len(self.steps)}' ")
-        if len(set(order)) != len(self.steps):
+        if len({i % len(self.steps) for i in order}) != len(self.steps):
             raise ValueError(f"Duplicated indices found in given order '{order}'")
         self.steps = [self.steps[i] for i in order]
         return self.method_schemas["run"]
-- 
2.43.0


From f250c8edf5d8697b1bbdda3365727e48bd9124c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:40 +0000
Subject: [PATCH 46/83] fix: removing a spare input from its step duplicated it
 among spare inputs

---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e2ba715..de252f7 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1442,8 +1442,10 @@ class Workflow(Block):
     def remove_input_from_step(self, input_index: int):
         """ Callable from frontend. """
         input_ = self.inputs[input_index]
-        self.spare_inputs.append(input_)
         current_step = self.find_input_step(input_)
+        if current_step is None:
+            raise ValueError(f"Input '{input_.name}', labelled '{input_.label}' is not in a step.")
+        self.spare_inputs.append(input_)
         current_step.inputs.remove(input_)
         return self.method_schemas["run"]
 
-- 
2.43.0


From e233ce8389e591516517b372b93688e84667ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:02 +0000
Subject: [PATCH 47/83] fix: copies of a workflow shared the display settings
 of its steps

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index de252f7..f2f075b 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -3,6 +3,7 @@
 """ Gathers all workflow relative features. """
 
 import ast
+import copy
 import time
 import datetime
 import uuid
@@ -582,7 +583,7 @@ class Workflow(Block):
         copied_step = Step(label=step.label, inputs=inputs, group_id=step.group_id, documentation=step.documentation,
                            display_variable_index=step.display_variable_index, id_=step.id_)
         copied_step.group_inputs = group_inputs
-        copied_step.display_setting = step.display_setting
+        copied_step.display_setting = copy.deepcopy(step.display_setting)
         return copied_step
 
     def copy_pipe(self, copied_workflow: 'Workflow', pipe: Pipe) -> Pipe:
-- 
2.43.0


From cce707e3a09819517bef5af7063d52de2d042b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:49 +0000
Subject: [PATCH 48/83] fix: adding datasets with other attributes misaligned
 the rows of the matrix

---
 dessia_common/datatools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index f8fa454..7388974 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -133,7 +133,7 @@ class Dataset(DessiaObject):
         sum_hlist = self.__class__(dessia_objects=self.dessia_objects + other.dessia_objects,
                                    name=self.name[:5] + '_+_' + other.name[:5])
 
-        if all(item in self.common_attributes for item in other.common_attributes):
+        if len(other) == 0 or self.common_attributes == other.common_attributes:
             sum_hlist._common_attributes = self.common_attributes
             if self._matrix is not None and other._matrix is not None:
                 sum_hlist._matrix = self._matrix + other._matrix
-- 
2.43.0


From 550cbbf8f8ceb2178df8cdec1dd61f67cd73ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:17 +0000
Subject: [PATCH 49/83] fix: annotations of views and subclasses could not be
 serialized and read back

---
 dessia_common/schemas/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index d704aa3..9c39eb0 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1729,7 +1729,7 @@ ORIGIN_TO_SCHEMA_CLASS = {
     tuple: HeterogeneousSequence, list: HomogeneousSequence,
     collections.abc.Iterator: HomogeneousSequence, Union: UnionProperty,
     dict: DynamicDict, InstanceOf: InstanceOfProperty,
-    type: ClassProperty,
+    type: ClassProperty, Subclass: SubclassProperty,
     MethodType: MethodTypeProperty, ClassMethodType: MethodTypeProperty,
     AttributeType: AttributeTypeProperty, ClassAttributeType: AttributeTypeProperty,
     CadViewType: SelectorProperty, PlotDataType: SelectorProperty, MarkdownType: SelectorProperty,
@@ -1741,7 +1741,8 @@ SERIALIZED_TO_SCHEMA_CLASS = {
     "Tuple": HeterogeneousSequence, "List": HomogeneousSequence, "Iterator": HomogeneousSequence,
     "Union": UnionProperty, "Dict": DynamicDict, "InstanceOf": InstanceOfProperty, "Subclass": SubclassProperty,
     "MethodType": MethodTypeProperty, "ClassMethodType": MethodTypeProperty, "Type": ClassProperty,
-    "AttributeType": AttributeTypeProperty, "ClassAttributeType": AttributeTypeProperty, "Literal": EnumProperty
+    "AttributeType": AttributeTypeProperty, "ClassAttributeType": AttributeTypeProperty, "Literal": EnumProperty,
+    "CadViewType": SelectorProperty, "PlotDataType": SelectorProperty, "MarkdownType": SelectorProperty
 }
 
 
-- 
2.43.0


From c792a5d2881f3da5e178243a38c0bdf8f4c61008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:48 +0000
Subject: [PATCH 50/83] fix: allowed values with spaces and nested tuples were
 lost when reading an annotation back

---
 dessia_common/schemas/core.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 9c39eb0..3026c31 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -650,8 +650,7 @@ class TypingProperty(Property):
     def _raw_args_from_serialized(cls, serialized: str) -> str:
         """ Get arguments as str from serialized value. """
         if "[" in serialized and "]" in serialized:
-            args = re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
-            return args.replace(" ", "")
+            return re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
         return ""
 
     @classmethod
@@ -1111,9 +1110,9 @@ class HeterogeneousSequence(TypingProperty):
     def annotation_from_serialized(cls, serialized: str) -> Type[Tuple]:
         """ Deserialize Tuple annotation with undefined length support. """
         rawargs = cls._raw_args_from_serialized(serialized)
-        if ",..." in rawargs:
-            arg = rawargs.split(",...")[0]
-            subtype = deserialize_annotation(arg)
+        args = extract_args(rawargs)
+        if "..." in args:
+            subtype = deserialize_annotation(args[0])
             return Tuple[subtype, ...]
         return Tuple[TypingProperty._args_from_serialized(serialized)]
 
@@ -1645,7 +1644,7 @@ class EnumProperty(TypingProperty):
     def annotation_from_serialized(cls, serialized: str) -> Type[T]:
         """ Specifically reset args as a tuple while removing one layer of single quotes. """
         args = cls._raw_args_from_serialized(serialized)
-        return Literal[tuple(args.replace("'", "").split(","))]
+        return Literal[tuple(re.findall(r"'([^']*)'", args))]
 
     @property
     def get_import_name(self):
@@ -1864,12 +1863,17 @@ def extract_args(string: str) -> List[str]:
     closed_brackets = 0
     current_arg = ""
     arguments = []
-    for character in string.replace(" ", ""):
-        if character == "[":
+    quoted = False
+    for character in string:
+        if character == "'":
+            quoted = not quoted
+        if character == " " and not quoted:
+            continue
+        if character == "[" and not quoted:
             opened_brackets += 1
-        if character == "]":
+        if character == "]" and not quoted:
             closed_brackets += 1
-        split_by_comma = closed_brackets == opened_brackets
+        split_by_comma = closed_brackets == opened_brackets and not quoted
         if split_by_comma and character == ",":
             # We are at first level, because we closed as much brackets as we have opened
             # Current argument is complete, we append it to arguments sequence and reset current arguments
-- 
2.43.0


From e22028fe551e913782553565f12c0caf8cc29340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:11 +0000
Subject: [PATCH 51/83] fix: an iterator annotation was read back as a list

---
 dessia_common/schemas/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 3026c31..06ac826 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -8,7 +8,7 @@ from copy import deepcopy
 import inspect
 import collections.abc
 from typing import Tuple, Dict, List, Type, get_args, get_origin, get_type_hints, Callable, Union, \
-    TypeVar, TypedDict, Optional, Any, Literal
+    TypeVar, TypedDict, Optional, Any, Literal, Iterator
 from functools import cached_property
 from dessia_common.utils.helpers import full_classname, get_python_class_from_class_name
 from dessia_common.abstract import CoreDessiaObject
@@ -1178,8 +1178,11 @@ class HomogeneousSequence(TypingProperty):
 
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[List]:
-        """ Deserialize List annotation. """
-        return List[TypingProperty._args_from_serialized(serialized)]
+        """ Deserialize List annotation. Support iterators. """
+        args = TypingProperty._args_from_serialized(serialized)
+        if TypingProperty.type_from_serialized(serialized) == "Iterator":
+            return Iterator[args]
+        return List[args]
 
     @property
     def form_type(self):
-- 
2.43.0


From cf21904cb7d2100e57a6c969e50b2304d5d0284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:40 +0000
Subject: [PATCH 52/83] fix: a mutable default of a list or a dict was never
 reported

---
 dessia_common/schemas/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 06ac826..767b569 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1216,7 +1216,7 @@ class HomogeneousSequence(TypingProperty):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if List doesn't define a default value that is other than None. """
-        if self.default_value() is not UNDEFINED and self.default_value() is not None:
+        if self.attribute.default_value is not UNDEFINED and self.attribute.default_value is not None:
             msg = f"{self.check_prefix}Mutable List input defines a default value other than None," \
                   f"which will lead to unexpected behavior and therefore, is not supported."
             return UnsupportedDefault(msg)
@@ -1298,7 +1298,7 @@ class DynamicDict(TypingProperty):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if Dict doesn't define a default value that is other than None. """
-        if self.default_value() is not UNDEFINED and self.default_value() is not None:
+        if self.attribute.default_value is not UNDEFINED and self.attribute.default_value is not None:
             msg = f"{self.check_prefix}Mutable Dict input defines a default value other than None," \
                   f"which will lead to unexpected behavior and therefore, is not supported."
             return UnsupportedDefault(msg)
-- 
2.43.0


From 9f3dbd2ecc8c74aa7c8a768556ba07f493edef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:15 +0000
Subject: [PATCH 53/83] fix: default of a measure named a wrong class

---
 dessia_common/schemas/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 767b569..48f31fe 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -857,14 +857,14 @@ class MeasureProperty(BuiltinProperty):
         """ Handle measures default values defined as floats, Measure object and force a value when undefined. """
         if self.has_default_value:
             if isinstance(self.attribute.default_value, float):
-                default_measure = Measure(self.attribute.default_value)
+                default_measure = self.annotation(self.attribute.default_value)
             elif isinstance(self.attribute.default_value, dict):
-                default_measure = Measure(self.attribute.default_value["value"])
+                default_measure = self.annotation(self.attribute.default_value["value"])
             else:
                 raise ValueError(f"Default value for attribute '{self.attribute.name}' "
                                  f"must be of type 'float' or 'Measure'. Got '{type(self.attribute.default_value)}'")
             return default_measure.to_dict()
-        return {"object_class": f"{Measure.__module__}.{Measure.__class__.__name__}", "value": None}
+        return {"object_class": full_classname(object_=self.annotation, compute_for="class"), "value": None}
 
     def get_import_names(self, import_names):
         """ Process MeasureProperty and get/update the import names list."""
-- 
2.43.0


From b6d8532bb6d0e9207305414c4dcd2ddbafccaf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:45 +0000
Subject: [PATCH 54/83] fix: reading a value with the name of a builtin type
 always failed

---
 dessia_common/serialization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 7fa8e8f..5a19d75 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -7,7 +7,6 @@ import warnings
 import inspect
 import collections
 import collections.abc
-from ast import literal_eval
 from typing import get_origin, get_args, Union, Any, BinaryIO, TextIO, Literal
 from numpy import int64, float64
 import networkx as nx
@@ -353,8 +352,9 @@ def dict_to_object(dict_, class_=None, force_generic: bool = False, global_dict=
 
 def deserialize_with_type(type_, value):
     """ Useful when deserialization is not straightforward and more info is need (type_). """
-    if type_ in dcty.TYPES_STRINGS.values():
-        return literal_eval(type_)(value)
+    for builtin_type, type_string in dcty.TYPES_STRINGS.items():
+        if type_ == type_string:
+            return builtin_type(value)
     if isinstance(type_, str):
         class_ = get_python_class_from_class_name(type_)
         if inspect.isclass(class_):
-- 
2.43.0


From f93cbf54811675ca82a787d0907b2753e0698ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:03 +0000
Subject: [PATCH 55/83] fix: a type given by its name always failed

---
 dessia_common/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 339cb2d..9c14835 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1124,7 +1124,9 @@ def type_from_annotation(type_, module):
     """ Clean up a proposed type if there are stringified. """
     if isinstance(type_, str):
         # Evaluating types
-        type_ = dcs.TYPES_FROM_STRING.get(type_, default=getattr(import_module(module), type_))
+        if type_ in dcs.TYPES_FROM_STRING:
+            return dcs.TYPES_FROM_STRING[type_]
+        type_ = getattr(import_module(module), type_)
     return type_
 
 
-- 
2.43.0


From 304daaa1ce14e0b9cc0d93109cc6c64549717ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:33 +0000
Subject: [PATCH 56/83] fix: an input whose default was reset stayed locked
 without a value

---
 dessia_common/workflow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index f2f075b..10835a8 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1582,6 +1582,8 @@ class Workflow(Block):
         """ Callable from frontend. """
         input_ = self.inputs[input_index]
         input_.default_value = value
+        if value is UNDEFINED:
+            input_.unlock()
         return self.method_schemas["run"]
 
     def reset_input_default(self, input_index: int):
-- 
2.43.0


From 05f8b628f69d59311f5161e6a813e8b06843fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 57/83] fix: an attribute holding a set of objects could not be
 exported to xlsx

---
 dessia_common/exports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index a2993be..8928dff 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -132,7 +132,7 @@ class XLSXWriter:
             if isinstance(value, dict):
                 cell_link = f'#{list(value.values())[0].__class__.__name__}!A2'
             elif isinstance(value, (list, set)) and not is_builtins_list(value):
-                cell_link = f'#{value[0].__class__.__name__}!A2'
+                cell_link = f'#{next(iter(value)).__class__.__name__}!A2'
             elif is_hashable(value) and value in self.object_to_sheet_row:
                 ref_sheet, ref_row_number, _ = self.object_to_sheet_row[value]
                 cell_link = f'#{ref_sheet.title}!A{ref_row_number+2}'
-- 
2.43.0


From 6cef94414c9e972cf53d549e5eafd6fc48734568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:27 +0000
Subject: [PATCH 58/83] fix: rows of a markdown table appeared twice below its
 limit

---
 dessia_common/exports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 8928dff..83f979e 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -382,7 +382,7 @@ class MarkdownWriter:
                 table += f"| + {len(content) - self.table_limit} unprinted elements | |\n"
 
             if len(content) > half_table:
-                table += self._table_rows_from_content(content[-half_table:])
+                table += self._table_rows_from_content(content[max(half_table, len(content) - half_table):])
 
         return table
 
-- 
2.43.0


From 4543030b25c06ce07513072a06883b58af302f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 59/83] fix: the difference between two objects reported the
 name as missing in the first one

---
 dessia_common/utils/diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index 4beeecc..08bc79d 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -127,6 +127,8 @@ def diff(value1, value2, path='#'):
             del eq_dict['name']
 
         other_eq_dict = value2._serializable_dict()
+        if 'name' in other_eq_dict:
+            del other_eq_dict['name']
         return dict_diff(eq_dict, other_eq_dict, path=path)
 
     if value1 == value2:
-- 
2.43.0


From 4bb4ecfdfb3e4adbf347fb9a6bd56810fdc9f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 60/83] fix: the copy of a tuple was a list

---
 dessia_common/utils/copy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index e07c432..861a599 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -95,6 +95,8 @@ def deepcopy_sequence(seq_value, memo):
     for value in seq_value:
         copied_value = deepcopy_value(value, memo=memo)
         copied_list.append(copied_value)
+    if isinstance(seq_value, tuple):
+        return tuple(copied_list)
     return copied_list
 
 
-- 
2.43.0


From 9c981b5adcb1a44c25ab04df9432840533c62b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:26 +0000
Subject: [PATCH 61/83] fix: sorting a clustered dataset left the labels of its
 objects in place

---
 dessia_common/datatools/cluster.py |  4 ++++
 dessia_common/datatools/dataset.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index 1adc1e3..c9dbe04 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -89,6 +89,10 @@ class ClusteredDataset(Dataset):
         # new_hlist.name += "_list")
         return new_hlist
 
+    def _reorder(self, indexes: List[int]):
+        Dataset._reorder(self, indexes)
+        self.labels = [self.labels[idx] for idx in indexes]
+
     def _printed_attributes(self):
         return ["label"] + Dataset._printed_attributes(self)
 
diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index 7388974..fe8c419 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -432,10 +432,12 @@ class Dataset(DessiaObject):
                 sort_indexes = npy.argsort(self.column_values(key))
             elif isinstance(key, str):
                 sort_indexes = npy.argsort(self.attribute_values(key))
-            self.dessia_objects = [self.dessia_objects[idx] for idx in (sort_indexes if ascend else sort_indexes[::-1])]
-            if self._matrix is not None:
-                self._matrix = [self._matrix[idx] for idx in
-                                (sort_indexes if ascend else sort_indexes[::-1])]
+            self._reorder(sort_indexes if ascend else sort_indexes[::-1])
+
+    def _reorder(self, indexes: List[int]):
+        self.dessia_objects = [self.dessia_objects[idx] for idx in indexes]
+        if self._matrix is not None:
+            self._matrix = [self._matrix[idx] for idx in indexes]
 
     def mean(self):
         """
-- 
2.43.0


From 672fd48ff3bcf9df313ffaa6bba8c43320bcaa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:58 +0000
Subject: [PATCH 62/83] fix: clusters were named after other clusters when
 there were more than ten of them

---
 dessia_common/datatools/cluster.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index c9dbe04..ebabd9e 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -137,12 +137,13 @@ class ClusteredDataset(Dataset):
         |    21.0 |            0.199 |           90.0 |     2648.0 |             15.0 |
         """
         sublists = []
-        label_tags = sorted(list(map(str, set(self.labels).difference({-1}))))
-        unic_labels = list(set(self.labels))
+        unic_labels = sorted(set(self.labels).difference({-1}))
+        label_tags = list(map(str, unic_labels))
         for _ in range(self.n_clusters):
             sublists.append([])
         if -1 in self.labels:
             sublists.append([])
+            unic_labels.append(-1)
             label_tags.append("outliers")
 
         for idx, label in enumerate(self.labels):
@@ -151,9 +152,7 @@ class ClusteredDataset(Dataset):
         new_dessia_objects = [Dataset(dessia_objects=sublist, name=self.name + f"_{label_tag}")
                               for label_tag, sublist in zip(label_tags, sublists)]
 
-        return ClusteredDataset(new_dessia_objects,
-                                list(set(self.labels).difference({-1})) + ([-1] if -1 in self.labels else []),
-                                name=self.name + "_split")
+        return ClusteredDataset(new_dessia_objects, unic_labels, name=self.name + "_split")
 
     def _check_transform_sublists(self):
         if not isinstance(self.dessia_objects[0], Dataset):
-- 
2.43.0


From d18335bb5dd34bf62d7f36c2ee8dbdc378f40a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 63/83] fix: centroids and plotted families assumed the labels
 of clusters had no gap

---
 dessia_common/datatools/cluster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index ebabd9e..84e5a39 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -280,9 +280,9 @@ class ClusteredDataset(Dataset):
         labels = clustered_sublists.labels
         cluster_distances = clustered_sublists.cluster_distances(method=method, **kwargs)
         real_centroids = [[] for _ in labels]
-        for label in labels:
-            min_idx = cluster_distances[label].index(min(cluster_distances[label]))
-            real_centroids[label] = clustered_sublists.dessia_objects[label][min_idx]
+        for idx, distances in enumerate(cluster_distances):
+            min_idx = distances.index(min(distances))
+            real_centroids[idx] = clustered_sublists.dessia_objects[idx][min_idx]
         return real_centroids
 
     def _merge_sublists(self):
@@ -316,10 +316,10 @@ class ClusteredDataset(Dataset):
     def _point_families(self):
         colormap = plt.cm.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
         point_families = []
-        for i_cluster in range(self.n_clusters):
+        for i_cluster, label in enumerate(sorted(set(self.labels).difference({-1}))):
             color = Color(colormap[i_cluster][0], colormap[i_cluster][1], colormap[i_cluster][2])
-            points_index = list(map(int, npy.where(npy.array(self.labels) == i_cluster)[0].tolist()))
-            point_families.append(PointFamily(color, points_index, name="Cluster " + str(i_cluster)))
+            points_index = list(map(int, npy.where(npy.array(self.labels) == label)[0].tolist()))
+            point_families.append(PointFamily(color, points_index, name="Cluster " + str(label)))
 
         if -1 in self.labels:
             color = LIGHTGREY
-- 
2.43.0


From 24356729ca5a80927eb237c324b471d19d4e4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:26 +0000
Subject: [PATCH 64/83] fix: clustered datasets could not be plotted with a
 recent matplotlib

---
 dessia_common/datatools/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index 84e5a39..aff891c 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -314,7 +314,7 @@ class ClusteredDataset(Dataset):
         return sample
 
     def _point_families(self):
-        colormap = plt.cm.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
+        colormap = plt.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
         point_families = []
         for i_cluster, label in enumerate(sorted(set(self.labels).difference({-1}))):
             color = Color(colormap[i_cluster][0], colormap[i_cluster][1], colormap[i_cluster][2])
-- 
2.43.0


From 6ebd32bd39ee68e70bb59416ef315b007bc72989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:58 +0000
Subject: [PATCH 65/83] fix: the last rows of a printed dataset were its first
 ones

---
 dessia_common/datatools/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index fe8c419..9e955de 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -202,7 +202,7 @@ class Dataset(DessiaObject):
             string += (f"\n+ {undispl_len} undisplayed object" + "s" * (min([undispl_len, 2]) - 1) + "...")
 
         if len(self) > 5:
-            string += self._print_objects_slice(slice(-5, len(self)), attr_space)
+            string += self._print_objects_slice(slice(max(5, len(self) - 5), len(self)), attr_space)
         return prefix + "\n" + string + "\n"
 
     def _printed_attributes(self):
@@ -212,7 +212,7 @@ class Dataset(DessiaObject):
 
     def _print_objects_slice(self, key: slice, attr_space: List[int]):
         string = ""
-        for index in range(len(self[key])):
+        for index in range(len(self))[key]:
             string += "\n"
             string += self._print_object(index, attr_space)
         return string
-- 
2.43.0


From 88804842e55c5463b2d6ae5c43c2141fc21b9c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 66/83] fix: headings of documents made from markdown had the
 wrong level and lost their final sharps

---
 dessia_common/document_generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dessia_common/document_generator.py b/dessia_common/document_generator.py
index 4d0814a..a961648 100644
--- a/dessia_common/document_generator.py
+++ b/dessia_common/document_generator.py
@@ -99,7 +99,8 @@ class Heading:
     @classmethod
     def from_markdown(cls, markdown_text: str):
         """ Create a new Paragraph object from Markdown text. """
-        return cls(text=markdown_text.strip("#"), level=markdown_text.count("#"))
+        text = markdown_text.lstrip("#")
+        return cls(text=text.strip(), level=len(markdown_text) - len(text))
 
 
 class Paragraph:
@@ -215,7 +216,7 @@ class DocxWriter:
         The level of the heading is determined by the number of '#' characters in the text.
         For example, a single '#' character at the beginning of the text will create a level 1 heading.
         """
-        self.document.add_heading(text, level=text.count('#'))
+        Heading.from_markdown(text).add_to_document(self.document)
         return self
 
     def add_page_breaks(self, num_page_breaks: int):
@@ -307,7 +308,7 @@ class DocxWriter:
             if isinstance(item, Paragraph):
                 docx_writer.paragraphs = [item]
                 if item.text.startswith('#'):
-                    docx_writer.add_paragraph_as_heading(text=item.text.strip(' # '))
+                    docx_writer.add_paragraph_as_heading(text=item.text)
                 else:
                     docx_writer.add_paragraphs(add_heading=False)
             if isinstance(item, Table):
-- 
2.43.0


From dd44329c6d068e53ed4169be6245eb57e5ac2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:55 +0000
Subject: [PATCH 67/83] fix: lines of markdown holding dashes were left out of
 documents

---
 dessia_common/document_generator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dessia_common/document_generator.py b/dessia_common/document_generator.py
index a961648..701c428 100644
--- a/dessia_common/document_generator.py
+++ b/dessia_common/document_generator.py
@@ -279,7 +279,7 @@ class DocxWriter:
         """
         elements, headings = [], []
         table_pattern = re.compile(r'^\|.*\|$')
-        horizontal_line_pattern = re.compile(r'^\s*\|?\s*-+\s*\|?\s*(-+\s*\|?)*\s*$')
+        separator_pattern = re.compile(r'^[\s|:-]*---[\s|:-]*$')
 
         for line in markdown_text.split('\n'):
             line = line.strip()
@@ -288,14 +288,15 @@ class DocxWriter:
                     headings.append(Heading.from_markdown(line))
                     elements.append(Paragraph.from_markdown(markdown_text=line))
 
-                elif table_pattern.match(line) and not horizontal_line_pattern.match(line):
+                elif separator_pattern.match(line):
+                    continue
+
+                elif table_pattern.match(line):
                     row = line.strip('|').split('|')
-                    if '---' not in line:
-                        elements.append(Table(rows=[row]))
+                    elements.append(Table(rows=[row]))
 
                 else:
-                    if '---' not in line:
-                        elements.append(Paragraph.from_markdown(markdown_text=line))
+                    elements.append(Paragraph.from_markdown(markdown_text=line))
         return headings, elements
 
     @classmethod
-- 
2.43.0


From 7be6de096e79b0971a4c0d1c316f4af5a89c4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 68/83] fix: dictionaries of objects could not be read back
 from a spreadsheet

---
 dessia_common/excel_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index 97e3cad..b0cf96e 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -152,10 +152,10 @@ class ExcelReader:
         dict_keys = []
         if "Dict" in cell.value:
             actual_value = {}
-            sheet = self.workbook[target]
+            sheet = self.workbook[target[0]]
             column = sheet["A"]
             for row in column[3:]:
-                dict_keys.append(row.value.split('.')[1])
+                dict_keys.append(row.value.split('.')[-1])
 
             for key, value in zip(dict_keys, values):
                 actual_value[key] = value
-- 
2.43.0


From c9c2948f9d6a7364bfad834bce8cac707cd328d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 69/83] fix: tuple types of different lengths matched

---
 dessia_common/utils/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 7242719..75fc944 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -342,7 +342,8 @@ def complex_first_type_match(type_: Type, match_against: Type) -> bool:
 
     if type_origin is tuple:
         # Order matters, all arguments should match
-        return all(typematch(a, b) for a, b in zip(type_args, match_against_args))
+        return len(type_args) == len(match_against_args) and \
+            all(typematch(a, b) for a, b in zip(type_args, match_against_args))
 
     if type_origin is dict:
         # key type AND value type should match
-- 
2.43.0


From baf94723dffe6223fef087bddd5316d87f679561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:49 +0000
Subject: [PATCH 70/83] fix: matching tuples of any length with other tuples
 raised an error

---
 dessia_common/utils/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 75fc944..c4ce417 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -341,6 +341,10 @@ def complex_first_type_match(type_: Type, match_against: Type) -> bool:
         return typematch(type_args[0], match_against_args[0])
 
     if type_origin is tuple:
+        if Ellipsis in type_args or Ellipsis in match_against_args:
+            # A tuple of any length is only matched by another one, but matches against any homogeneous one
+            return match_against_args[1:] == (Ellipsis,) and \
+                all(typematch(arg, match_against_args[0]) for arg in type_args if arg is not Ellipsis)
         # Order matters, all arguments should match
         return len(type_args) == len(match_against_args) and \
             all(typematch(a, b) for a, b in zip(type_args, match_against_args))
-- 
2.43.0


From ed47f349739622dd7c6a9cbc5a9c3e6c72799841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:55 +0000
Subject: [PATCH 71/83] fix: interpolating at a value that a list repeats
 divided by zero

---
 dessia_common/utils/interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/utils/interpolation.py b/dessia_common/utils/interpolation.py
index ef57411..53efd65 100644
--- a/dessia_common/utils/interpolation.py
+++ b/dessia_common/utils/interpolation.py
@@ -10,6 +10,8 @@ def istep_from_value_on_list(list_: List[float], value: float,
     for ipoint, (point1, point2) in enumerate(zip(list_[:-1], list_[1:])):
         point1_s, point2_s = sorted((point1, point2))
         if point1_s <= value <= point2_s:
+            if point1 == point2:
+                return float(ipoint)
             alpha = (value - point1) / (point2 - point1)
             if alpha < 0 or alpha > 1:
                 raise ValueError
-- 
2.43.0


From 0a60dfcb741732f8a1c8b102d5280d60311c2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:52 +0000
Subject: [PATCH 72/83] fix: optimize_cma_then_gradient gives the gradient a
 dimensionless starting point

---
 dessia_common/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/optimization.py b/dessia_common/optimization.py
index a995b7f..3bd4656 100644
--- a/dessia_common/optimization.py
+++ b/dessia_common/optimization.py
@@ -163,7 +163,8 @@ class InstantiatingModelOptimizer(Optimizer):
     def optimize_cma_then_gradient(self, method: str = 'L-BFGS-B'):
         """ Optimize a problem by combining a CMA for global optimum search and gradient for polishing. """
         model_cma, fx_cma = self.optimize_cma()
-        x0 = npy.array([getattr(model_cma, attr.attribute_name) for attr in self.optimization_bounds])
+        x0 = npy.array([attr.dimensionless_value(getattr(model_cma, attr.attribute_name))
+                        for attr in self.optimization_bounds])
         model, best_fx = self.optimize_gradient(method=method, x0=x0)
         if fx_cma <= best_fx:
             model = model_cma
-- 
2.43.0


From 83710aa86f51a6e38b5fbd87d8be3c55001de96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 73/83] fix: generated scripts escape quotes, backslashes and
 new lines of names and documentation

---
 dessia_common/workflow/blocks.py | 40 +++++++++++++++-----------------
 dessia_common/workflow/core.py   | 11 +++++----
 dessia_common/workflow/utils.py  |  6 +++++
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index e014d61..cc8952d 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -19,7 +19,7 @@ from dessia_common.utils.helpers import (concatenate, full_classname, get_python
 from dessia_common.breakdown import attrmethod_getter
 from dessia_common.exports import ExportFormat
 from dessia_common.workflow.core import Block, Variable, Workflow
-from dessia_common.workflow.utils import ToScriptElement
+from dessia_common.workflow.utils import ToScriptElement, quoted
 import plot_data as pd
 
 T = TypeVar("T")
@@ -198,7 +198,7 @@ class ClassMethod(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"ClassMethod(method_type=ClassMethodType(" \
-                 f"{self.method_type.class_.__name__}, '{self.method_type.name}')" \
+                 f"{self.method_type.class_.__name__}, {self.method_type.name!r})" \
                  f", {self.base_script()})"
 
         imports = [full_classname(object_=self.method_type, compute_for="instance"),
@@ -280,7 +280,7 @@ class ModelMethod(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"ModelMethod(method_type=MethodType(" \
-                 f"{self.method_type.class_.__name__}, '{self.method_type.name}')" \
+                 f"{self.method_type.class_.__name__}, {self.method_type.name!r})" \
                  f", {self.base_script()})"
 
         imports = [full_classname(object_=self.method_type, compute_for="instance"),
@@ -683,10 +683,10 @@ class Filter(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         filter_variables = [f"DessiaFilter("
-                            f"attribute='{f.attribute}', comparison_operator='{f.comparison_operator}', "
-                            f"bound={f.bound}, name='{f.name}')" for f in self.filters]
+                            f"attribute={f.attribute!r}, comparison_operator={f.comparison_operator!r}, "
+                            f"bound={f.bound}, name={f.name!r})" for f in self.filters]
         filters = f"[{','.join(filter_variables)}]"
-        script = f"Filter(filters={filters}, logical_operator='{self.logical_operator}', {self.base_script()})"
+        script = f"Filter(filters={filters}, logical_operator={self.logical_operator!r}, {self.base_script()})"
 
         imports = [DessiaFilter("", "", 0).full_classname, self.full_classname]
         return ToScriptElement(declaration=script, imports=imports)
@@ -767,14 +767,14 @@ class Display(Block):
 
     def base_script(self) -> str:
         """ Generate a chunk of script that denotes the arguments of a base block. """
-        return f"name=\"{self.name}\", load_by_default={self.load_by_default}, position={self.position}"
+        return f"name={quoted(self.name)}, load_by_default={self.load_by_default}, position={self.position}"
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         imports = [self.full_classname]
         script_selector = self.to_script_selector()
         script = f"{self.display_class_name}(selector={self.selector_class_name}(" \
-                 f"class_={self.selector.class_.__name__}, name='{self.selector.name}')" \
+                 f"class_={self.selector.class_.__name__}, name={self.selector.name!r})" \
                  f", {self.base_script()})"
 
         imports.extend(script_selector.imports)
@@ -901,7 +901,7 @@ class MultiPlot(Display):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"MultiPlot(selector_name='{self.selector.name}', attributes={self.attributes}, {self.base_script()})"
+        script = f"MultiPlot(selector_name={self.selector.name!r}, attributes={self.attributes}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
     def to_dict(self, use_pointers: bool = True, memo=None, path: str = '#',
@@ -991,7 +991,7 @@ class MultiObject(Display):
         imports = [c.full_classname for c in self.configurations] + [self.full_classname]
         configurations = [f"{c._to_script()}" for c in self.configurations]
         script = ("MultiObject("
-                  f"selector_name='{self.selector.name}',"
+                  f"selector_name={self.selector.name!r},"
                   f" configurations=[{', '.join(configurations)}],"
                   f" {self.base_script()})")
         return ToScriptElement(declaration=script, imports=imports)
@@ -1202,7 +1202,7 @@ class ModelAttribute(Block):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"ModelAttribute(attribute_name='{self.attribute_name}', {self.base_script()})"
+        script = f"ModelAttribute(attribute_name={self.attribute_name!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
    
@@ -1249,7 +1249,7 @@ class GetModelAttribute(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"GetModelAttribute(attribute_type=AttributeType(" \
-                 f"{self.attribute_type.class_.__name__}, name=\"{self.attribute_type.name}\")" \
+                 f"{self.attribute_type.class_.__name__}, name={quoted(self.attribute_type.name)})" \
                  f", {self.base_script()})"
         imports = [full_classname(object_=self.attribute_type, compute_for="instance"),
                    full_classname(object_=self.attribute_type.class_, compute_for="class"),
@@ -1302,7 +1302,7 @@ class SetModelAttribute(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"SetModelAttribute(attribute_type=AttributeType(" \
-                 f"{self.attribute_type.class_.__name__}, name=\"{self.attribute_type.name}\")" \
+                 f"{self.attribute_type.class_.__name__}, name={quoted(self.attribute_type.name)})" \
                  f", {self.base_script()})"
         imports = [full_classname(object_=self.attribute_type, compute_for="instance"),
                    full_classname(object_=self.attribute_type.class_, compute_for="class"),
@@ -1417,7 +1417,7 @@ class ConcatenateStrings(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"ConcatenateStrings(number_elements={self.number_elements}, " \
-                 f"separator='{self.separator}', {self.base_script()})"
+                 f"separator={self.separator!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
@@ -1488,8 +1488,8 @@ class Export(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"Export(method_type=MethodType(" \
-                 f"{self.method_type.class_.__name__}, '{self.method_type.name}')" \
-                 f", filename='{self.filename}', extension='{self.extension}'" \
+                 f"{self.method_type.class_.__name__}, {self.method_type.name!r})" \
+                 f", filename={self.filename!r}, extension={self.extension!r}" \
                  f", text={self.text}, {self.base_script()})"
 
         imports = [self.full_classname, full_classname(object_=self.method_type, compute_for="instance"),
@@ -1557,7 +1557,7 @@ class Archive(Block):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"Archive(number_exports={self.number_exports}, filename='{self.filename}', {self.base_script()})"
+        script = f"Archive(number_exports={self.number_exports}, filename={self.filename!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
@@ -1587,8 +1587,7 @@ class ScatterView(PlotDataView):
                           elements=samples, name=self.name)
 
     def _to_script(self) -> str:
-        attributes = "', '".join(self.attributes)
-        return f"{self.__class__.__name__}(attributes=('{attributes}'), name='{self.name}')"
+        return f"{self.__class__.__name__}(attributes={tuple(self.attributes)!r}, name={self.name!r})"
 
 
 class ParallelView(PlotDataView):
@@ -1602,5 +1601,4 @@ class ParallelView(PlotDataView):
         return pd.ParallelPlot(elements=samples, disposition="horizontal", axes=self.attributes)
 
     def _to_script(self) -> str:
-        attributes = "', '".join(self.attributes)
-        return f"{self.__class__.__name__}(attributes=['{attributes}'], name='{self.name}')"
+        return f"{self.__class__.__name__}(attributes={list(self.attributes)!r}, name={self.name!r})"
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 10835a8..a42c1e1 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -36,7 +36,7 @@ import dessia_common.templates
 from dessia_common.serialization import (deserialize, serialize_with_pointers, serialize, update_pointers_data,
                                          add_references, deserialize_argument)
 from dessia_common.workflow.utils import (ToScriptElement, blocks_to_script, nonblock_variables_to_script,
-                                          update_imports, generate_default_value)
+                                          update_imports, generate_default_value, quoted)
 
 
 T = TypeVar("T")
@@ -164,7 +164,7 @@ class Variable(DessiaObject):
     def _get_to_script_elements(self):
         schema = get_schema(annotation=self.type_, attribute=SchemaAttribute(self.name))
         imports = schema.get_import_names(import_names=[])
-        declaration = f"name='{self.name}', label='{self.label}', position={self.position}," \
+        declaration = f"name={self.name!r}, label={self.label!r}, position={self.position}," \
                       f" type_={schema.pretty_annotation}"
         return ToScriptElement(declaration=declaration, imports=imports, imports_as_is=[])
 
@@ -227,7 +227,7 @@ class Block(DessiaObject):
 
     def base_script(self) -> str:
         """ Generate a chunk of script that denotes the arguments of a base block. """
-        return f"name=\"{self.name}\", position={self.position}"
+        return f"name={quoted(self.name)}, position={self.position}"
 
     def evaluate(self, values, **kwargs):
         """ Not implemented for abstract block class 'evaluate' method. """
@@ -1339,10 +1339,11 @@ class Workflow(Block):
                       f"{pipes_str}\n" \
                       f"{prefix}workflow = " \
                       f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, documentation=documentation," \
-                      f" name=\"{self.name}\")\n"
+                      f" name={quoted(self.name)})\n"
 
         imports.append(self.full_classname)
-        full_script = f'documentation = """{self.documentation}"""\n\n' + full_script
+        documentation = self.documentation.replace("\\", "\\\\").replace('"', '\\"').replace("\r", "\\r")
+        full_script = f'documentation = """{documentation}"""\n\n' + full_script
         return ToScriptElement(declaration=full_script, imports=imports, imports_as_is=imports_as_is)
 
     def to_script(self) -> str:
diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 5e7fe09..3bda804 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Utilities for workflows. """
 
+import json
 from typing import List, Dict
 
 from dessia_common.schemas.core import get_schema, SchemaAttribute
@@ -10,6 +11,11 @@ from dessia_common.utils.types import is_file_or_file_sequence
 from dessia_common.utils.helpers import is_sequence
 
 
+def quoted(text: str) -> str:
+    """ Give a double-quoted Python literal whose value is given text, whichever characters it holds. """
+    return json.dumps(str(text), ensure_ascii=False)
+
+
 class ToScriptElement:
     """ Class meant to improve to_script readability. """
 
-- 
2.43.0


From aa231b9feb41361c69448fdb94a07e9b64e3dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:19 +0000
Subject: [PATCH 74/83] fix: parallel plots of datasets have an axis for every
 attribute

---
 dessia_common/datatools/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index 9e955de..d1bdfc7 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -757,6 +757,10 @@ class Dataset(DessiaObject):
                 ordered_attr += self._new_attributes_trio(attribute_serie)
             else:
                 ordered_attr = self._new_sided_attribute(ordered_attr, attribute_serie)
+        # Attributes whose series could not be chained on a side of the plot are drawn at its end
+        for attribute_serie in attribute_series:
+            ordered_attr = ordered_attr + [attribute for attribute in dict.fromkeys(attribute_serie)
+                                           if attribute not in ordered_attr]
         return ordered_attr
 
     @staticmethod
-- 
2.43.0


From de6c25d069dc0f816e49d2a906cb259d03402644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 75/83] fix: generated scripts import nothing for a variable
 without type

---
 dessia_common/schemas/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 48f31fe..fbe0afc 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1599,6 +1599,12 @@ class GenericTypeProperty(Property):
             return None
         return "typing.Type"
 
+    def get_import_names(self, import_names):
+        """ Nothing has to be imported when there is no annotation. """
+        if self.annotation is None:
+            return import_names
+        return super().get_import_names(import_names=import_names)
+
     def to_dict(self) -> Dict[str, Any]:
         """ Write Type as a Dict. """
         chunk = super().to_dict()
-- 
2.43.0


From 46f0680ef689b4ad3880053b6361e0fa6b04a308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 76/83] fix: the script of a run gives a value to every
 unconnected input

---
 dessia_common/workflow/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index a42c1e1..b098f79 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2238,9 +2238,8 @@ class WorkflowRun(WorkflowState):
         index_ = 0
         for j, block in enumerate(self.workflow.blocks):
             for i, input_ in enumerate(block.inputs):
-                input_key = f"block_{j}.inputs[{i}]"
-                if input_key not in workflow_script.declaration:
-                    input_str += f"    workflow.input_index({input_key}): value_{j}_{i},\n"
+                if self.workflow.variable_input_pipe(input_) is None:
+                    input_str += f"    workflow.input_index(block_{j}.inputs[{i}]): value_{j}_{i},\n"
                     default_value += generate_default_value(block_values[index_], j, i)
                     index_ += 1
                     add_import.extend(update_imports(input_.type_, input_.name))
-- 
2.43.0


From 3617aa73577291f74c34f4618b7841bf56a720e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:18 +0000
Subject: [PATCH 77/83] fix: the script of a workflow locks inputs at their own
 value

---
 dessia_common/workflow/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 3bda804..0abf2b7 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -67,12 +67,20 @@ def blocks_to_script(blocks, prefix: str, imports):
         blocks_str += f"{block_name} = {block_script.declaration}\n"
         for i, input_ in enumerate(block.inputs):
             if input_.locked:
-                blocks_str += f"{block_name}.inputs[{i}].lock()\n"
+                blocks_str += f"{block_name}.inputs[{i}].lock({locked_value_to_script(input_.default_value)})\n"
         block_names.append(block_name)
     blocks_str += f"{prefix}blocks = [{', '.join(block_names)}]\n"
     return blocks_str
 
 
+def locked_value_to_script(value) -> str:
+    """ Write the value an input is locked at. Objects and files are not written : default of the block is kept. """
+    is_empty_sequence = is_sequence(value) and len(value) == 0
+    if not is_empty_sequence and (is_object_or_object_sequence(value) or is_file_or_file_sequence(value)):
+        return ""
+    return repr(value)
+
+
 def nonblock_variables_to_script(nonblock_variables, prefix, imports, imports_as_is):
     """ Set Non Block Variables to script. """
     nbvs_str = ""
-- 
2.43.0


From 932d8acbe8da1ddeca6b57af018755bcc946793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 78/83] fix: the size of a sequence counts its elements

---
 dessia_common/breakdown.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/breakdown.py b/dessia_common/breakdown.py
index 3ad4667..a3145b0 100644
--- a/dessia_common/breakdown.py
+++ b/dessia_common/breakdown.py
@@ -153,7 +153,8 @@ def deep_getsizeof(obj, ids=None):
         return result + sum(dgso(k, ids) + dgso(v, ids) for k, v in obj.items())
 
     if isinstance(obj, collections.abc.Container):
-        return result + sum(dgso(x, ids) for x in obj.__dict__.values())
+        elements = obj.__dict__.values() if hasattr(obj, '__dict__') else obj
+        return result + sum(dgso(x, ids) for x in elements)
 
     return result
 
-- 
2.43.0


From 07cfff9777d3755ecec1472d8b6439dec954022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 79/83] fix: an optional union is read as the type it wraps,
 whatever the place of None and the number of types

---
 dessia_common/schemas/core.py  | 10 ++++++++--
 dessia_common/serialization.py |  6 +++---
 dessia_common/utils/types.py   |  5 +++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index fbe0afc..bde3c42 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -736,6 +736,8 @@ class OptionalProperty(ProxyProperty):
     def __init__(self, annotation: Type[T], attribute: SchemaAttribute):
         super().__init__(annotation=annotation, attribute=attribute)
 
+        self.annotation = optional_argument(annotation)
+
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[T]:
         """ Deserialize Optional annotation. """
@@ -1857,8 +1859,12 @@ def union_is_default_value(typing_: Type) -> bool:
     An argument of a function that has a default_value set to None is Optional[T], which is an alias for
     Union[T, NoneType]. This function checks if this is the case.
     """
-    args = get_args(typing_)
-    return len(args) == 2 and type(None) in args
+    return type(None) in get_args(typing_)
+
+
+def optional_argument(typing_: Type) -> Type:
+    """ Get the type that is wrapped by an Optional one. If it wraps several types, get the Union of them. """
+    return Union[tuple(a for a in get_args(typing_) if a is not type(None))]
 
 
 def extract_args(string: str) -> List[str]:
diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 5a19d75..8c27c04 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -20,7 +20,7 @@ from dessia_common.abstract import CoreDessiaObject
 from dessia_common.typings import InstanceOf, JsonSerializable
 from dessia_common.measures import Measure
 from dessia_common.graph import explore_tree_from_leaves
-from dessia_common.schemas.core import TYPING_EQUIVALENCES, is_typing, serialize_annotation
+from dessia_common.schemas.core import TYPING_EQUIVALENCES, is_typing, optional_argument, serialize_annotation
 
 fullargsspec_cache = {}
 
@@ -376,8 +376,8 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
     deserialized_arg = None
     if origin is Union:
         # Check for Union false Positive (Default value = None)
-        if len(args) == 2 and type(None) in args:
-            return deserialize_argument(type_=args[0], argument=argument)
+        if type(None) in args:
+            return deserialize_argument(type_=optional_argument(type_), argument=argument)
 
         # Type union
         classes = list(args)
diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index c4ce417..2494545 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -9,7 +9,8 @@ import orjson
 from dessia_common.abstract import CoreDessiaObject
 from dessia_common.typings import InstanceOf, MethodType, ClassMethodType
 from dessia_common.files import BinaryFile, StringFile
-from dessia_common.schemas.core import TYPING_EQUIVALENCES, union_is_default_value, is_typing, serialize_annotation
+from dessia_common.schemas.core import (TYPING_EQUIVALENCES, union_is_default_value, optional_argument, is_typing,
+                                         serialize_annotation)
 from dessia_common.utils.helpers import get_python_class_from_class_name, is_sequence
 
 SIMPLE_TYPES = [int, str]
@@ -377,7 +378,7 @@ def heal_type(type_: Type):
     if type_origin is Union:
         # Check for default values false positive
         if union_is_default_value(type_):
-            type_ = type_args[0]
+            type_ = optional_argument(type_)
             type_origin = get_origin(type_)
             type_args = get_args(type_)
     return type_, type_origin, type_args
-- 
2.43.0


From 0f6abd9f76845220b1563d67e87bc99e2fe1a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:38 +0000
Subject: [PATCH 80/83] fix: a simple type matches against the optional type
 that wraps it

---
 dessia_common/utils/types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 2494545..eac420f 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -315,7 +315,10 @@ def typematch(type_: Type, match_against: Type) -> bool:
             return True
 
     # type_ is not complex and match_against is
-    match_against, origin, args = heal_type(match_against)
+    healed_type, origin, args = heal_type(match_against)
+    if healed_type != match_against:
+        # Optional type : what it wraps is what should be matched
+        return typematch(type_, healed_type)
     if origin is Union:
         matches = [typematch(type_, subtype) for subtype in args]
         return any(matches)
-- 
2.43.0


From e06b0d8a9c2eda13db5b8e44d6a7de1e16247a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:19 +0000
Subject: [PATCH 81/83] fix: read the arguments annotated as tuples of any
 length

---
 dessia_common/serialization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 8c27c04..a71463e 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -411,6 +411,9 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
 
     elif origin is tuple:
         # Heterogeneous sequences (tuples)
+        if len(args) == 2 and args[1] is Ellipsis:
+            # Any number of items of the same type
+            args = (args[0],) * len(argument)
         deserialized_arg = tuple(deserialize_argument(t, arg) for (t, arg) in zip(args, argument))
     elif origin is dict:
         # Dynamic dict
-- 
2.43.0


From 40e5ae8c5c6f8500ac1200a2f3172ac3d11b9544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:50 +0000
Subject: [PATCH 82/83] fix: read the arguments annotated as types of a given
 class

---
 dessia_common/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index a71463e..df245cd 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -427,7 +427,7 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
                                                  pointers_memo=pointers_memo, path=path)
     elif origin is Literal:
         deserialized_arg = argument
-    elif type_ == dcty.Type:
+    elif origin is type:
         deserialized_arg = dcty.is_classname_transform(argument)
     else:
         msg = "Deserialization of typing {} is not implemented"
-- 
2.43.0


From 0c5b2f5954ab33bf48fdf7c5501f63ee45c8982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:36 +0000
Subject: [PATCH 83/83] fix: keep the empty cells at the ends of the rows of a
 markdown table

---
 dessia_common/document_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/document_generator.py b/dessia_common/document_generator.py
index 701c428..47e6da8 100644
--- a/dessia_common/document_generator.py
+++ b/dessia_common/document_generator.py
@@ -292,7 +292,7 @@ class DocxWriter:
                     continue
 
                 elif table_pattern.match(line):
-                    row = line.strip('|').split('|')
+                    row = line[1:-1].split('|')
                     elements.append(Table(rows=[row]))
 
                 else:
-- 
2.43.0

