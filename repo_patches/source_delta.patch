From 350a2ff3d11bec71941bb6f4a466813237b4eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 01/40] fix: do not memoize the reduce constructor under an id
 of the loading process

The id of the constructor in the loading process is unrelated to the ids stored
in the archive; when it happened to equal a stored id, later references to that
id were resolved to the constructor instead of to the stored object.
---
 skops/io/_sklearn.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 3baee2b..08b0e65 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -165,7 +165,6 @@ class ReduceNode(Node):
                 {
                     "__class__": constructor.__name__,
                     "__module__": get_module(constructor),
-                    "__id__": id(constructor),
                 },
                 load_context,
                 trusted=trusted,
-- 
2.43.0


From c434661a02480935c8cf035595488f346e46200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 02/40] fix: do not import the module named by a LossNode
 before the audit

Building the node tree is done by get_untrusted_types, visualize and load
before any trust decision, so it must not resolve names from the archive.
---
 skops/io/_sklearn.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 08b0e65..f4e206a 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -153,18 +153,25 @@ class ReduceNode(Node):
         self,
         state: dict[str, Any],
         load_context: LoadContext,
-        constructor: Type[Any],
+        constructor: Optional[Type[Any]],
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
         reduce = state["__reduce__"]
+        if constructor is None:
+            # The constructor is the type named by the node itself. It must not
+            # be resolved before the audit, since that would import its module.
+            constructor_module, constructor_name = self.module_name, self.class_name
+        else:
+            constructor_module = get_module(constructor)
+            constructor_name = constructor.__name__
         self.children = {
             "attrs": get_tree(state["content"], load_context, trusted=trusted),
             "args": get_tree(reduce["args"], load_context, trusted=trusted),
             "constructor": TypeNode(
                 {
-                    "__class__": constructor.__name__,
-                    "__module__": get_module(constructor),
+                    "__class__": constructor_name,
+                    "__module__": constructor_module,
                 },
                 load_context,
                 trusted=trusted,
@@ -254,7 +261,7 @@ class LossNode(ReduceNode):
         super().__init__(
             state,
             load_context,
-            constructor=gettype(state["__module__"], state["__class__"]),
+            constructor=None,
             trusted=self.trusted,
         )
 
-- 
2.43.0


From 5bf2856dc78ec2157dfb7593ed7b78cf5731c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 03/40] fix: only instantiate bit generators for random
 generators

The name of the bit generator comes from the archive and is not audited, it
could name any callable of numpy.random (e.g. numpy.random.seed or
numpy.random.test).
---
 skops/io/_numpy.py        | 16 +++++++++++++---
 skops/io/old/_numpy_v0.py |  5 +++--
 skops/io/old/_numpy_v1.py |  5 ++---
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f87c8d9..07c0f71 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -186,6 +186,18 @@ def random_generator_get_state(obj: Any, save_context: SaveContext) -> dict[str,
     return res
 
 
+def get_bit_generator_cls(name: str) -> Any:
+    """Return the numpy bit generator class of the given name.
+
+    The name is not part of the audit, so it must not resolve to anything else
+    that lives in ``numpy.random``.
+    """
+    cls = gettype("numpy.random", name)
+    if not (isinstance(cls, type) and issubclass(cls, np.random.BitGenerator)):
+        raise TypeError(f"numpy.random.{name} is not a bit generator.")
+    return cls
+
+
 class RandomGeneratorNode(Node):
     def __init__(
         self,
@@ -214,9 +226,7 @@ class RandomGeneratorNode(Node):
         seed_seq = seed_seq_cls(**seed_seq_state)
 
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_cls(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls(seed_seq)
         bit_generator.state = bit_generator_state
 
diff --git a/skops/io/old/_numpy_v0.py b/skops/io/old/_numpy_v0.py
index 356f67d..fc64b90 100644
--- a/skops/io/old/_numpy_v0.py
+++ b/skops/io/old/_numpy_v0.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node
+from skops.io._numpy import get_bit_generator_cls
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 0
@@ -23,8 +24,8 @@ class RandomGeneratorNode(Node):
 
     def _construct(self):
         # first restore the state of the bit generator
-        bit_generator = gettype(
-            "numpy.random", self.children["bit_generator_state"]["bit_generator"]
+        bit_generator = get_bit_generator_cls(
+            self.children["bit_generator_state"]["bit_generator"]
         )()
         bit_generator.state = self.children["bit_generator_state"]
 
diff --git a/skops/io/old/_numpy_v1.py b/skops/io/old/_numpy_v1.py
index 7e4b2b3..6a44f13 100644
--- a/skops/io/old/_numpy_v1.py
+++ b/skops/io/old/_numpy_v1.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node, get_tree
+from skops.io._numpy import get_bit_generator_cls
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 1
@@ -28,9 +29,7 @@ class RandomGeneratorNode(Node):
     def _construct(self):
         # first restore the state of the bit generator
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_cls(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls()
         bit_generator.state = bit_generator_state
 
-- 
2.43.0


From 9ec094d6ecd32a3a8c062bf3899a84ff20ab4b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 04/40] fix: operator functions and partials are what the audit
 says they are

OperatorFuncNode audited '<module>.<name>' but used 'operator.<name>', and
PartialNode audited an arbitrary name but always built a functools.partial.
---
 skops/io/_general.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 07cdfd5..2d4b3c7 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -296,6 +296,9 @@ class PartialNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
+        # what is constructed is always a functools.partial, thus this is what
+        # has to be audited, whatever the file says
+        self.module_name, self.class_name = "functools", "partial"
         # TODO: should we trust anything?
         self.trusted = self._get_trusted(trusted, [])
         self.children = {
@@ -662,7 +665,8 @@ class OperatorFuncNode(Node):
         self.children["attrs"] = get_tree(state["attrs"], load_context, trusted=trusted)
 
     def _construct(self):
-        op = getattr(operator, self.class_name)
+        # use exactly the name that was audited
+        op = gettype(self.module_name, self.class_name)
         attrs = self.children["attrs"].construct()
         return op(*attrs)
 
-- 
2.43.0


From d385a345eaa091bc984962b9e114692b78baabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 05/40] fix: audit bound methods under the name of the method
 that is returned

MethodNode audited an arbitrary label of the file while returning an arbitrary
attribute of the object.
---
 skops/io/_general.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 2d4b3c7..168789e 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -532,16 +532,29 @@ class MethodNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.children = {
-            "obj": get_tree(state["content"]["obj"], load_context, trusted=trusted),
-            "func": state["content"]["func"],
-        }
+        obj = get_tree(state["content"]["obj"], load_context, trusted=trusted)
+        self.children = {"obj": obj}
+        self.func = state["content"]["func"]
+        # What is handed back is this method of this object, therefore this is
+        # the name that has to be audited, whatever the file says.
+        self.owner = obj.module_name, obj.class_name
+        self.module_name, self.class_name = obj.module_name, (
+            f"{obj.class_name}.{self.func}"
+        )
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, [])
 
     def _construct(self):
         loaded_obj = self.children["obj"].construct()
-        method = getattr(loaded_obj, self.children["func"])
+        owner = gettype(*self.owner)
+        if loaded_obj is not owner and type(loaded_obj) is not owner:
+            raise TypeError(
+                f"Expected an object of type {'.'.join(self.owner)} for the method "
+                f"{self.func}, got {type(loaded_obj)} instead."
+            )
+        method = getattr(loaded_obj, self.func)
+        if not isinstance(method, MethodType):
+            raise TypeError(f"{self.func} of {type(loaded_obj)} is not a method.")
         return method
 
 
-- 
2.43.0


From b509e68fab3daf5ad75a10a7faad2700e25965ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 06/40] fix: respect the trusted argument for defaultdicts

A file with a defaultdict subclass was reported, but could not be loaded by
trusting what was reported.
---
 skops/io/_general.py | 2 +-
 skops/io/_sklearn.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 168789e..a96db69 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -105,7 +105,7 @@ class DefaultDictNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = ["collections.defaultdict"]
+        self.trusted = self._get_trusted(trusted, ["collections.defaultdict"])
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "default_factory": get_tree(
diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index f4e206a..3564d21 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -296,9 +296,10 @@ class _DictWithDeprecatedKeysNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = [
-            get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"
-        ]
+        self.trusted = self._get_trusted(
+            trusted,
+            [get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"],
+        )
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "_deprecated_key_to_new_key": get_tree(
-- 
2.43.0


From 5997c005e9b74637727fe6e9c121133a4a5dc3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 07/40] fix: load defaultdicts with keys other than str and of
 their own type

---
 skops/io/_general.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index a96db69..a12df8b 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -116,9 +116,9 @@ class DefaultDictNode(Node):
         }
 
     def _construct(self):
-        instance = defaultdict(**self.children["main"].construct())
-        instance.default_factory = self.children["default_factory"].construct()
-        return instance
+        cls = gettype(self.module_name, self.class_name)
+        default_factory = self.children["default_factory"].construct()
+        return cls(default_factory, self.children["main"].construct())
 
 
 def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From 1b685c4666ac4cb59389529641f8f86efdd2a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 08/40] fix: report untrusted names of slices and json values

They were accepted whatever type the file named for them, although is_self_safe
and visualize considered slices of another type as unsafe.
---
 skops/io/_general.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index a12df8b..9e47302 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -387,8 +387,11 @@ class SliceNode(Node):
             self.children["start"], self.children["stop"], self.children["step"]
         )
 
-    def get_unsafe_set(self):
-        return set()
+    def get_unsafe_set(self) -> set[str]:
+        # the children are no nodes
+        if self.is_self_safe():
+            return set()
+        return {f"{self.module_name}.{self.class_name}"}
 
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -574,17 +577,6 @@ class JsonNode(Node):
         self.children = {}
         self.trusted = self._get_trusted(trusted, PRIMITIVE_TYPE_NAMES)
 
-    def is_safe(self) -> bool:
-        # JsonNode is always considered safe.
-        # TODO: should we consider a JsonNode always safe?
-        return True
-
-    def is_self_safe(self) -> bool:
-        return True
-
-    def get_unsafe_set(self) -> set[str]:
-        return set()
-
     def _construct(self):
         return json.loads(self.content)
 
-- 
2.43.0


From a5f42b9ec71a1ab95caa192bbcd8e64cdff916e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 09/40] fix: trust the scipy sparse matrix types by default

Only the common base class spmatrix was trusted, which is never the type of a
stored matrix.
---
 skops/io/_scipy.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/skops/io/_scipy.py b/skops/io/_scipy.py
index e482a1a..c653b2d 100644
--- a/skops/io/_scipy.py
+++ b/skops/io/_scipy.py
@@ -3,12 +3,24 @@ from __future__ import annotations
 import io
 from typing import Any, Optional, Sequence
 
-from scipy.sparse import load_npz, save_npz, spmatrix
+from scipy.sparse import (
+    bsr_matrix,
+    coo_matrix,
+    csc_matrix,
+    csr_matrix,
+    dia_matrix,
+    load_npz,
+    save_npz,
+    spmatrix,
+)
 
 from ._audit import Node
 from ._protocol import PROTOCOL
 from ._utils import LoadContext, SaveContext, get_module
 
+# the types of sparse matrix that are supported by save_npz and load_npz
+SPARSE_MATRIX_TYPES = [bsr_matrix, coo_matrix, csc_matrix, csr_matrix, dia_matrix]
+
 
 def sparse_matrix_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
@@ -42,7 +54,7 @@ class SparseMatrixNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.type = state["type"]
-        self.trusted = self._get_trusted(trusted, [spmatrix])
+        self.trusted = self._get_trusted(trusted, [spmatrix] + SPARSE_MATRIX_TYPES)
         if self.type != "scipy":
             raise TypeError(
                 f"Cannot load object of type {self.module_name}.{self.class_name}"
-- 
2.43.0


From 5673a1a510888b0956ef20f435f69087edb1d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 10/40] fix: audit nodes that are referenced repeatedly only
 once

The time to audit a file was exponential in its nesting depth if the nodes of
each level were referenced more than once by the level above.
---
 skops/io/_audit.py          | 19 +++++++++++++++----
 skops/io/_general.py        |  4 ++--
 skops/io/old/_general_v0.py |  4 +++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index ac93662..4e75ad4 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -206,12 +206,18 @@ class Node:
 
         return len(self.get_unsafe_set()) == 0
 
-    def get_unsafe_set(self) -> set[str]:
+    def get_unsafe_set(self, visited: Optional[set[int]] = None) -> set[str]:
         """Get the set of unsafe types.
 
         This method returns all types which are not trusted, including this
         node and all its children.
 
+        Parameters
+        ----------
+        visited : set of int, default=None
+            The ids of the nodes whose unsafe types were already collected. A
+            node that is referenced several times must not be walked each time.
+
         Returns
         -------
         unsafe_set : set
@@ -223,6 +229,11 @@ class Node:
             # continue. This is to avoid infinite recursion.
             return set()
 
+        visited = set() if visited is None else visited
+        if id(self) in visited:
+            return set()
+        visited.add(id(self))
+
         with temp_setattr(self, _computing_unsafe_set=True):
             res = set()
             if not self.is_self_safe():
@@ -237,15 +248,15 @@ class Node:
                 if isinstance(child, list):
                     # iterate through the list
                     for value in child:
-                        res.update(value.get_unsafe_set())
+                        res.update(value.get_unsafe_set(visited))
                 elif isinstance(child, dict):
                     # iterate through the values of the dict only
                     # TODO: should we check the types of the keys?
                     for value in child.values():
-                        res.update(value.get_unsafe_set())
+                        res.update(value.get_unsafe_set(visited))
                 elif isinstance(child, Node):
                     # delegate to the child Node
-                    res.update(child.get_unsafe_set())
+                    res.update(child.get_unsafe_set(visited))
                 elif type(child) is type:
                     # the if condition bellow is not merged with the previous
                     # one because if the above condition is True, the following
diff --git a/skops/io/_general.py b/skops/io/_general.py
index 9e47302..71dc9db 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -264,7 +264,7 @@ class FunctionNode(Node):
     def _get_function_name(self) -> str:
         return f"{self.module_name}.{self.class_name}"
 
-    def get_unsafe_set(self) -> set[str]:
+    def get_unsafe_set(self, visited: Optional[set[int]] = None) -> set[str]:
         fn_name = self._get_function_name()
         if (self.trusted is True) or (fn_name in self.trusted):
             return set()
@@ -387,7 +387,7 @@ class SliceNode(Node):
             self.children["start"], self.children["stop"], self.children["step"]
         )
 
-    def get_unsafe_set(self) -> set[str]:
+    def get_unsafe_set(self, visited: Optional[set[int]] = None) -> set[str]:
         # the children are no nodes
         if self.is_self_safe():
             return set()
diff --git a/skops/io/old/_general_v0.py b/skops/io/old/_general_v0.py
index 4078227..59991c6 100644
--- a/skops/io/old/_general_v0.py
+++ b/skops/io/old/_general_v0.py
@@ -34,7 +34,9 @@ class FunctionNode(Node):
             + self.children["content"]["function"]
         )
 
-    def get_unsafe_set(self) -> set[str]:  # pragma: no cover
+    def get_unsafe_set(  # pragma: no cover
+        self, visited: Optional[set[int]] = None
+    ) -> set[str]:
         if (self.trusted is True) or (self._get_function_name() in self.trusted):
             return set()
 
-- 
2.43.0


From 24a75d0582cc8978141efb4ed0a49bb0df9f1d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 11/40] fix: do not silently drop the type or the internal
 state of objects

- instances of subclasses of str, int, float were loaded as instances of the
  base class; members of enums are now supported, others refused
- objects keeping their data at the C level (e.g. deque, frozenset) were loaded
  without that data
---
 skops/io/_general.py | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 71dc9db..7345e9f 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -1,10 +1,13 @@
 from __future__ import annotations
 
+import copyreg
 import io
 import json
 import operator
+import struct
 import uuid
 from collections import defaultdict
+from enum import Enum
 from functools import partial
 from reprlib import Repr
 from types import FunctionType, MethodType
@@ -394,13 +397,34 @@ class SliceNode(Node):
         return {f"{self.module_name}.{self.class_name}"}
 
 
+def has_hidden_state(cls: type) -> bool:
+    """Whether instances hold data that is neither in __dict__ nor in __slots__
+
+    This is the same condition under which Python itself refuses to copy or to
+    pickle an object that does not define __getstate__ or __reduce__.
+    """
+    if getattr(cls, "__getstate__", None) is not getattr(object, "__getstate__", None):
+        return False
+
+    pointer_size = struct.calcsize("P")
+    visible_size = object.__basicsize__
+    for offset in (cls.__dictoffset__, cls.__weakrefoffset__):
+        if offset > 0:
+            visible_size += pointer_size
+    visible_size += pointer_size * len(copyreg._slotnames(cls))  # type: ignore
+    return cls.__itemsize__ != 0 or cls.__basicsize__ > visible_size
+
+
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # This method is for objects which can either be persisted with json, or
     # the ones for which we can get/set attributes through
     # __getstate__/__setstate__ or reading/writing to __dict__.
 
-    # We first check if the object can be serialized using json.
+    # We first check if the object can be serialized using json. Instances of
+    # subclasses (e.g. of str) are not, since json would drop their type.
     try:
+        if obj is not None and type(obj) not in (bool, int, float, str):
+            raise TypeError(f"{type(obj)} is not a json type")
         # if we can simply use json, then we're done.
         obj_str = json.dumps(obj)
         return {
@@ -418,8 +442,16 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # If the constructor is the same as the object's type, then we consider it
     # safe to call it with the specified arguments.
 
-    reduce_output = obj.__reduce__()
-    if len(reduce_output) == 2 and reduce_output[0] is type(obj):
+    if isinstance(obj, Enum):
+        # members are looked up by their value
+        reduce_output: Any = (type(obj), (obj.value,))
+    else:
+        reduce_output = obj.__reduce__()
+    # a third item is the state to be set after the construction
+    no_state = len(reduce_output) == 2 or (
+        len(reduce_output) == 3 and reduce_output[2] is None
+    )
+    if no_state and reduce_output[0] is type(obj):
         return {
             "__class__": type(obj).__name__,
             "__module__": get_module(type(obj)),
@@ -428,6 +460,9 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         }
 
     # Otherwise we recover the object from the __dict__ or __getstate__
+    if has_hidden_state(type(obj)):
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From c9aa324885a80d8f42238dc88ae97fb7ce21cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 12/40] fix: keep all entries and the right keys of dicts

- keys of different type with the same string representation collided
- bool keys were all loaded as True
- complex and longdouble numpy keys could not be dumped
- property values were dropped, shifting the types of the keys
---
 skops/io/_general.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 7345e9f..d311665 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -11,7 +11,7 @@ from enum import Enum
 from functools import partial
 from reprlib import Repr
 from types import FunctionType, MethodType
-from typing import Any, Optional, Sequence
+from typing import Any, Container, Optional, Sequence
 
 import numpy as np
 
@@ -39,6 +39,22 @@ arepr = Repr()
 arepr.maxstring = 24
 
 
+def _get_key_name(key: Any, *used: Container[str]) -> str:
+    """Get the name under which the value of a dict key is stored.
+
+    Names in ``used``, which belong to another key, are not returned. They are
+    avoided by appending spaces, which are ignored when the key is restored.
+    """
+    if isinstance(key, (complex, np.longdouble)):
+        name = str(key)
+    else:
+        # the name that json uses, fails for types that json does not support
+        name = next(iter(json.loads(json.dumps({key: None}))))
+    while any(name in names for names in used):
+        name += " "
+    return name
+
+
 def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
         "__class__": obj.__class__.__name__,
@@ -48,12 +64,13 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
 
     key_types = get_state([type(key) for key in obj.keys()], save_context)
     content = {}
+    str_keys = {key for key in obj.keys() if isinstance(key, str)}
     for key, value in obj.items():
-        if isinstance(value, property):
-            continue
         if np.isscalar(key) and hasattr(key, "item"):
             # convert numpy value to python object
             key = key.item()  # type: ignore
+        if not isinstance(key, str):
+            key = _get_key_name(key, str_keys, content)
         content[key] = get_state(value, save_context)
     res["content"] = content
     res["key_types"] = key_types
@@ -81,6 +98,11 @@ class DictNode(Node):
         content = gettype(self.module_name, self.class_name)()
         key_types = self.children["key_types"].construct()
         for k_type, (key, val) in zip(key_types, self.children["content"].items()):
+            if k_type is bool or k_type is np.bool_:
+                # any non-empty string is truthy
+                key = key.strip() == "true"
+            elif isinstance(k_type, type) and not issubclass(k_type, str):
+                key = key.strip()
             content[k_type(key)] = val.construct()
         return content
 
-- 
2.43.0


From eed0c0bffeff828f8fb6c8c7720f56731c432143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 13/40] fix: restore or refuse instances of subclasses of
 builtin containers

- attributes of instances of subclasses of dict, list, set were lost
- instances of classes inheriting from a namedtuple, of other subclasses of
  tuple, of subclasses of bytes and partial were loaded as instances of the
  base class
- slices with members that are no json scalars were changed
- keyword arguments of methodcaller were lost
---
 skops/io/_audit.py   |  9 ++++++++-
 skops/io/_general.py | 47 +++++++++++++++++++++++++++++++-------------
 skops/io/_numpy.py   |  2 ++
 skops/io/_utils.py   | 14 +++++++++++++
 4 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index 4e75ad4..f3e24cf 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -5,7 +5,7 @@ from contextlib import contextmanager
 from typing import Any, Dict, Generator, List, Optional, Sequence, Type, Union
 
 from ._protocol import PROTOCOL
-from ._utils import LoadContext, get_module, get_type_paths
+from ._utils import CONTAINER_TYPES, LoadContext, get_module, get_type_paths
 from .exceptions import UntrustedTypesFoundException
 
 NODE_TYPE_MAPPING: dict[tuple[str, int], Type[Node]] = {}
@@ -163,6 +163,9 @@ class Node:
         if self._constructed is not UNINITIALIZED:
             return self._constructed
         self._constructed = self._construct()
+        attrs = self.children.get("instance_attrs")
+        if attrs is not None and isinstance(self._constructed, CONTAINER_TYPES):
+            vars(self._constructed).update(attrs.construct())
         return self._constructed
 
     def _construct(self):
@@ -378,4 +381,8 @@ def get_tree(
             )
 
     loaded_tree = node_cls(state, load_context, trusted=trusted)
+    if state.get("instance_attrs") is not None:
+        loaded_tree.children["instance_attrs"] = get_tree(
+            state["instance_attrs"], load_context, trusted=trusted
+        )
     return loaded_tree
diff --git a/skops/io/_general.py b/skops/io/_general.py
index d311665..a10db6a 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -211,7 +211,19 @@ class SetNode(Node):
         return content_type([item.construct() for item in self.children["content"]])
 
 
+def is_namedtuple(t: type) -> bool:
+    """Whether the type is a namedtuple or inherits from one"""
+    f = getattr(t, "_fields", None)
+    if not issubclass(t, tuple) or not isinstance(f, tuple):
+        return False
+    return all(isinstance(n, str) for n in f)
+
+
 def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not tuple and not is_namedtuple(type(obj)):
+        # would be loaded as a plain tuple
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -244,21 +256,10 @@ class TupleNode(Node):
         cls = gettype(self.module_name, self.class_name)
         content = tuple(value.construct() for value in self.children["content"])
 
-        if self.isnamedtuple(cls):
-            return cls(*content)
+        if is_namedtuple(cls):
+            return tuple.__new__(cls, content)
         return content
 
-    def isnamedtuple(self, t) -> bool:
-        # This is needed since namedtuples need to have the args when
-        # initialized.
-        b = t.__bases__
-        if len(b) != 1 or b[0] != tuple:
-            return False
-        f = getattr(t, "_fields", None)
-        if not isinstance(f, tuple):
-            return False
-        return all(isinstance(n, str) for n in f)
-
 
 def function_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
@@ -298,6 +299,10 @@ class FunctionNode(Node):
 
 
 def partial_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not partial:
+        # don't allow any subclass, it would be loaded as a partial
+        raise UnsupportedTypeException(obj)
+
     _, _, (func, args, kwds, namespace) = obj.__reduce__()
     res = {
         "__class__": "partial",  # don't allow any subclass
@@ -379,6 +384,12 @@ class TypeNode(Node):
 
 
 def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    for item in (obj.start, obj.stop, obj.step):
+        # these are stored in the schema as they are
+        is_json = item is None or type(item) in (bool, int, float, str)
+        if not is_json or item in (float("inf"), -float("inf")) or item != item:
+            raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -647,6 +658,10 @@ class JsonNode(Node):
 
 
 def bytes_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) not in (bytes, bytearray):
+        # would be loaded as bytes or bytearray
+        raise UnsupportedTypeException(obj)
+
     f_name = f"{uuid.uuid4()}.bin"
     save_context.zip_file.writestr(f_name, obj)
     res = {
@@ -705,7 +720,11 @@ class BytearrayNode(BytesNode):
 
 
 def operator_func_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    _, attrs = obj.__reduce__()
+    op, attrs = obj.__reduce__()
+    if op is not type(obj):
+        # a methodcaller with keyword arguments, which are not part of attrs
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": "operator",
diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 07c0f71..3877b81 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -270,6 +270,8 @@ class DTypeNode(Node):
 # tuples of type and function that gets the state of that type
 GET_STATE_DISPATCH_FUNCTIONS = [
     (np.generic, ndarray_get_state),
+    # otherwise, the function registered for bytes would take precedence
+    (np.bytes_, ndarray_get_state),
     (np.ndarray, ndarray_get_state),
     (np.ma.MaskedArray, maskedarray_get_state),
     (np.ufunc, function_get_state),
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index a3519ab..41ed078 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copyreg
 import importlib
 import sys
 import warnings
@@ -10,6 +11,7 @@ from typing import Any, Type
 from zipfile import ZipFile
 
 from ._protocol import PROTOCOL
+from .exceptions import UnsupportedTypeException
 
 
 # The following two functions are copied from cpython's pickle.py file.
@@ -148,6 +150,10 @@ class LoadContext:
         return self.memo.get(id)
 
 
+# the types of builtin containers, whose subclasses are also supported
+CONTAINER_TYPES = (dict, list, set, tuple)
+
+
 @singledispatch
 def _get_state(obj, save_context: SaveContext):
     # This function should never be called directly. Instead, it is used to
@@ -174,6 +180,14 @@ def get_state(value, save_context: SaveContext) -> dict[str, Any]:
 
     res = _get_state(value, save_context)
 
+    if isinstance(value, CONTAINER_TYPES):
+        # instances of subclasses can have attributes besides their items
+        if any(hasattr(value, name) for name in copyreg._slotnames(type(value))):
+            raise UnsupportedTypeException(value)
+        attrs = getattr(value, "__dict__", None)
+        if attrs:
+            res["instance_attrs"] = get_state(attrs, save_context)
+
     res["__id__"] = __id__
     return res
 
-- 
2.43.0


From a0fec86010e23943bdc00be20e7c605ac95a6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 14/40] fix: numpy array nodes only load arrays

np.load also opens npz files, so a file could make load return an NpzFile.
---
 skops/io/_numpy.py | 3 +++
 skops/io/_utils.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 3877b81..b482d94 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -86,6 +86,9 @@ class NdArrayNode(Node):
         # Dealing with a regular numpy array, where dtype != object
         if self.type == "numpy":
             content = np.load(self.children["content"], allow_pickle=False)
+            if not isinstance(content, np.ndarray):
+                # e.g. the file is an archive of arrays
+                raise ValueError("The file does not contain an array.")
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
                 content = gettype(self.module_name, self.class_name)(content)
             return content
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index 41ed078..82692bd 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -182,7 +182,7 @@ def get_state(value, save_context: SaveContext) -> dict[str, Any]:
 
     if isinstance(value, CONTAINER_TYPES):
         # instances of subclasses can have attributes besides their items
-        if any(hasattr(value, name) for name in copyreg._slotnames(type(value))):
+        if any(hasattr(value, name) for name in copyreg._slotnames(type(value))):  # type: ignore
             raise UnsupportedTypeException(value)
         attrs = getattr(value, "__dict__", None)
         if attrs:
-- 
2.43.0


From 1be52f502bb9297eed6f31308915635348aa29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 15/40] fix: restore subclasses of ndarray and the shape of
 object arrays

- instances of subclasses of ndarray were loaded by calling the subclass with
  an array, and as plain arrays if their dtype is object
- the shape of object arrays with zero-sized dimensions, without dimensions, or
  with sequences as cells was lost
- str scalars with trailing null characters lost them
---
 skops/io/_numpy.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index b482d94..e941963 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -20,12 +20,26 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "NdArrayNode",
     }
 
+    if isinstance(obj, np.ndarray) and getattr(obj, "__dict__", None):
+        # attributes of instances of subclasses are not stored, only those that
+        # are the same for each instance are restored
+        restored = vars(np.asarray(obj).view(type(obj)))
+        if any(restored.get(key) is not val for key, val in vars(obj).items()):
+            raise UnsupportedTypeException(obj)
+    if obj.dtype.type is np.record and not isinstance(obj, np.recarray):
+        # would be loaded as np.void
+        raise UnsupportedTypeException(obj)
+    if isinstance(obj, np.str_) and obj.endswith("\0"):
+        # numpy ignores trailing null characters when reading the file
+        raise UnsupportedTypeException(obj)
+
     try:
         # If the dtype is object, np.save should not work with
         # allow_pickle=False, therefore we convert them to a list and
         # recursively call get_state on it.
         if obj.dtype == object:
-            obj_serialized = get_state(obj.tolist(), save_context)
+            cells = obj.tolist() if obj.ndim > 0 else [obj.item()]
+            obj_serialized = get_state(cells, save_context)
             res["content"] = obj_serialized["content"]
             res["type"] = "json"
             res["shape"] = get_state(obj.shape, save_context)
@@ -90,7 +104,12 @@ class NdArrayNode(Node):
                 # e.g. the file is an archive of arrays
                 raise ValueError("The file does not contain an array.")
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
-                content = gettype(self.module_name, self.class_name)(content)
+                cls = gettype(self.module_name, self.class_name)
+                if issubclass(cls, np.ndarray):
+                    # the constructor of a subclass can have any signature
+                    content = content.view(cls)
+                else:
+                    content = cls(content)
             return content
 
         if self.type == "json":
@@ -99,15 +118,18 @@ class NdArrayNode(Node):
             shape = self.children["shape"].construct()
             tmp = [o.construct() for o in self.children["content"]]
 
-            # TODO: this is a hack to get the correct shape of the array. We
-            # should find _a better way_ to do this.
-            if len(shape) == 1:
-                content = np.ndarray(shape=len(tmp), dtype="O")
-                for i, v in enumerate(tmp):
-                    content[i] = v
-            else:
-                content = np.array(tmp, dtype="O")
+            # The cells can be sequences themselves, therefore the shape cannot
+            # be inferred from the nested lists.
+            cells: list[Any] = tmp if len(shape) == 0 else [tmp]
+            for _ in shape:
+                cells = [cell for nested in cells for cell in nested]
+            content = np.empty(len(cells), dtype="O")
+            for i, v in enumerate(cells):
+                content[i] = v
+            content.shape = shape
 
+            if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
+                content = content.view(gettype(self.module_name, self.class_name))
             return content
 
         raise ValueError(f"Unknown type for a numpy object: {self.type}.")
-- 
2.43.0


From 71af4705d4eb66108824e1a21e04594b274958e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 16/40] fix: keep fill value and mask hardness of masked
 arrays, bit generator of RandomState

Also refuse subclasses of MaskedArray and dtypes that numpy does not preserve,
and store masked arrays that are referenced more than once only once.
---
 skops/io/_numpy.py | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index e941963..bc00e1f 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -136,15 +136,28 @@ class NdArrayNode(Node):
 
 
 def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not np.ma.MaskedArray:
+        # would be loaded as a MaskedArray
+        raise UnsupportedTypeException(obj)
+
+    # data and mask are new views each time they are accessed, use the same ones
+    # to store them once if the masked array is referenced more than once
+    data, mask = save_context.memo.setdefault(
+        ("masked", id(obj)), (obj.data, obj.mask)  # type: ignore
+    )
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "MaskedArrayNode",
         "content": {
-            "data": get_state(obj.data, save_context),
-            "mask": get_state(obj.mask, save_context),
+            "data": get_state(data, save_context),
+            "mask": get_state(mask, save_context),
         },
     }
+    if obj._fill_value is not None:
+        res["content"]["fill_value"] = get_state(obj.fill_value, save_context)
+    if obj.hardmask:
+        res["content"]["hard_mask"] = get_state(True, save_context)
     return res
 
 
@@ -161,11 +174,21 @@ class MaskedArrayNode(Node):
             "data": get_tree(state["content"]["data"], load_context, trusted=trusted),
             "mask": get_tree(state["content"]["mask"], load_context, trusted=trusted),
         }
+        for name in ("fill_value", "hard_mask"):
+            if name in state["content"]:
+                self.children[name] = get_tree(
+                    state["content"][name], load_context, trusted=trusted
+                )
 
     def _construct(self):
         data = self.children["data"].construct()
         mask = self.children["mask"].construct()
-        return np.ma.MaskedArray(data, mask)
+        kwargs = {
+            name: self.children[name].construct()
+            for name in ("fill_value", "hard_mask")
+            if name in self.children
+        }
+        return np.ma.MaskedArray(data, mask, **kwargs)
 
 
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -194,8 +217,13 @@ class RandomStateNode(Node):
         self.trusted = self._get_trusted(trusted, [np.random.RandomState])
 
     def _construct(self):
-        random_state = gettype(self.module_name, self.class_name)()
-        random_state.set_state(self.children["content"].construct())
+        state = self.children["content"].construct()
+        args = []
+        if isinstance(state, dict) and state.get("bit_generator") != "MT19937":
+            # not the default bit generator
+            args.append(get_bit_generator_cls(state["bit_generator"])())
+        random_state = gettype(self.module_name, self.class_name)(*args)
+        random_state.set_state(state)
         return random_state
 
 
@@ -263,6 +291,10 @@ def dtype_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # we use numpy's internal save mechanism to store the dtype by
     # saving/loading an empty array with that dtype.
     tmp: np.typing.NDArray = np.ndarray(0, dtype=obj)
+    if tmp.dtype != obj:
+        # e.g. dtypes with a shape
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": "dtype",
         "__module__": "numpy",
-- 
2.43.0


From 017ad4b346b5c8cf28014f3970405a3ee07fc211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 17/40] fix: refuse objects whose name belongs to something
 else

Objects are loaded by name. Objects that are shadowed by something else of the
same name, and methods of super classes, were loaded as something else.
---
 skops/io/_general.py |  4 ++++
 skops/io/_utils.py   | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index a10db6a..b7188f1 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -583,6 +583,10 @@ def method_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # dependent on a specific instance of an object.
     # It stores the state of the object the method is bound to,
     # and prepares both to be persisted.
+    if getattr(obj.__self__, obj.__func__.__name__, None) != obj:
+        # e.g. a method of a super class
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(obj),
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index 82692bd..4ecfa46 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -162,6 +162,23 @@ def _get_state(obj, save_context: SaveContext):
     raise TypeError(f"Getting the state of type {type(obj)} is not supported yet")
 
 
+def check_name(value: Any, state: dict[str, Any]) -> None:
+    """Check that the name in the state doesn't belong to something else
+
+    Objects are loaded by name. If the name belongs to a different object, e.g.
+    because it is shadowed, something else than what was saved would be loaded.
+    """
+    loader = state["__loader__"]
+    if loader in ("JsonNode", "DTypeNode", "MethodNode"):
+        # these are not loaded by name
+        return
+
+    named = value if loader in ("FunctionNode", "TypeNode") else type(value)
+    module = sys.modules.get(state["__module__"])
+    if getattr(module, "__dict__", {}).get(state["__class__"], named) is not named:
+        raise UnsupportedTypeException(value)
+
+
 def get_state(value, save_context: SaveContext) -> dict[str, Any]:
     # This is a helper function to try to get the state of an object. If it
     # fails with `get_state`, we try with json.dumps, if that fails, we raise
@@ -179,6 +196,7 @@ def get_state(value, save_context: SaveContext) -> dict[str, Any]:
     __id__ = save_context.memoize(obj=value)
 
     res = _get_state(value, save_context)
+    check_name(value, res)
 
     if isinstance(value, CONTAINER_TYPES):
         # instances of subclasses can have attributes besides their items
-- 
2.43.0


From bb64dca6bba44e2d21365080a3449a968a81d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 18/40] fix: refuse subclasses of scipy sparse matrices

They were loaded as instances of the scipy class.
---
 skops/io/_scipy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skops/io/_scipy.py b/skops/io/_scipy.py
index c653b2d..4edecf5 100644
--- a/skops/io/_scipy.py
+++ b/skops/io/_scipy.py
@@ -17,12 +17,17 @@ from scipy.sparse import (
 from ._audit import Node
 from ._protocol import PROTOCOL
 from ._utils import LoadContext, SaveContext, get_module
+from .exceptions import UnsupportedTypeException
 
 # the types of sparse matrix that are supported by save_npz and load_npz
 SPARSE_MATRIX_TYPES = [bsr_matrix, coo_matrix, csc_matrix, csr_matrix, dia_matrix]
 
 
 def sparse_matrix_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if not type(obj).__module__.startswith("scipy.sparse."):
+        # a user defined subclass would be loaded as the type of scipy
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From 0e45d65da124a1c66def1c7b52bd94c35175e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 19/40] fix: visualize all objects that can be dumped

Slices, attributes named key_types, untrusted types of dict keys, trusted nodes
beneath untrusted ones and names that look like markup could not be shown.
---
 skops/io/_visualize.py | 84 +++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 3c3c2c3..3bbacae 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -2,13 +2,21 @@ from __future__ import annotations
 
 import io
 import json
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pathlib import Path
 from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
 
 from ._audit import VALID_NODE_CHILD_TYPES, Node, get_tree
-from ._general import BytearrayNode, BytesNode, FunctionNode, JsonNode, ListNode
+from ._general import (
+    BytearrayNode,
+    BytesNode,
+    DictNode,
+    FunctionNode,
+    JsonNode,
+    ListNode,
+    SliceNode,
+)
 from ._numpy import NdArrayNode
 from ._scipy import SparseMatrixNode
 from ._utils import LoadContext
@@ -20,6 +28,7 @@ SKIPPED_TYPES = (
     FunctionNode,
     JsonNode,
     NdArrayNode,
+    SliceNode,
     SparseMatrixNode,
 )
 
@@ -111,6 +120,13 @@ def _get_node_label(
     return node_val
 
 
+def _escape(text: str) -> str:
+    """Escape what rich would interpret as markup or what cannot be printed."""
+    from rich.markup import escape
+
+    return escape(text.encode("utf-8", "backslashreplace").decode("utf-8"))
+
+
 def _traverse_tree(nodes_iter, show, **kwargs):
     """Common tree traversal logic used by both rich and fallback display methods."""
     # start with root node
@@ -119,24 +135,35 @@ def _traverse_tree(nodes_iter, show, **kwargs):
     yield node, label, 0, True  # node, label, level, is_first_node
 
     prev_level = node.level  # should be 0
+    prev_shown_level = 0
+    # the levels of the shown nodes that lead to the current node
+    shown_levels = [node.level]
 
     for node in nodes_iter:
-        visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
-        if not visible:
-            continue
-
-        level_diff = prev_level - node.level
-        if level_diff < -1:
+        if node.level - prev_level > 1:
             # this would mean it is a "(great-)grandchild" node
             raise ValueError(
                 "While constructing the tree of the object, a level difference of "
-                f"{level_diff} was encountered, which should not be possible, please "
-                "report the issue here: https://github.com/skops-dev/skops/issues"
+                f"{prev_level - node.level} was encountered, which should not be "
+                "possible, please report the issue here: "
+                "https://github.com/skops-dev/skops/issues"
             )
+        prev_level = node.level
+
+        # If the parent node is not shown, attach to the closest one that is
+        while len(shown_levels) > 1 and shown_levels[-1] >= node.level:
+            shown_levels.pop()
+
+        visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
+        if not visible:
+            continue
+
+        node = replace(node, level=len(shown_levels))
+        shown_levels.append(prev_level)
 
         label = _get_node_label(node, **kwargs)
-        yield node, label, level_diff, False
-        prev_level = node.level
+        yield node, label, prev_shown_level - node.level, False
+        prev_shown_level = node.level
 
 
 def pretty_print_tree(
@@ -149,6 +176,11 @@ def pretty_print_tree(
         from rich.tree import Tree
 
         console = Console()
+        # the names in the file should be shown, not interpreted as markup
+        nodes_iter = (
+            replace(node, key=_escape(node.key), val=_escape(node.val))
+            for node in nodes_iter
+        )
 
         for node, label, level_diff, is_first_node in _traverse_tree(
             nodes_iter, show, **kwargs
@@ -197,6 +229,18 @@ def pretty_print_tree(
             print(f" {node.key}: {label}")
 
 
+def _is_shown(parent: Node, key: str, child: VALID_NODE_CHILD_TYPES) -> bool:
+    """Determine if a child of a node should be visited."""
+    # key_types is not helpful, as it is artificially added by skops to
+    # circumvent the fact that json only allows keys to be strings. It is not
+    # useful to the user and adds a lot of noise, thus skip key_types, unless
+    # there is something untrusted about them.
+    if isinstance(parent, DictNode) and key == "key_types":
+        return not (isinstance(child, ListNode) and child.is_safe())
+    # an optional child that does not exist
+    return child is not None
+
+
 def walk_tree(
     node: VALID_NODE_CHILD_TYPES | dict[str, VALID_NODE_CHILD_TYPES],
     node_name: str = "root",
@@ -223,8 +267,7 @@ def walk_tree(
         The current node to visit. Children are visited recursively.
 
     node_name: str (default="root")
-        The key to the current node. If "key_types" is encountered, it is
-        skipped.
+        The key to the current node.
 
     level: int (default=0)
         The current level of nesting.
@@ -238,17 +281,6 @@ def walk_tree(
         A dataclass containing the aforementioned information.
 
     """
-    # key_types is not helpful, as it is artificially added by skops to
-    # circumvent the fact that json only allows keys to be strings. It is not
-    # useful to the user and adds a lot of noise, thus skip key_types.
-    if node_name == "key_types":
-        if isinstance(node, ListNode) and node.is_safe():
-            return
-        raise ValueError(
-            "An invalid 'key_types' node was encountered, please report the issue "
-            "here: https://github.com/skops-dev/skops/issues"
-        )
-
     if isinstance(node, dict):
         num_nodes = len(node)
         for i, (key, val) in enumerate(node.items(), start=1):
@@ -300,7 +332,7 @@ def walk_tree(
         return
 
     yield from walk_tree(
-        node.children,
+        {key: val for key, val in node.children.items() if _is_shown(node, key, val)},
         node_name=node_name,
         level=level + 1,
     )
-- 
2.43.0


From 7286960899569ea502d5c59d7790f36d6849d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 20/40] fix: update writes to any output path and replaces the
 output file at once

Relative paths in other directories failed, and a temporary directory on another
file system meant that the output file was copied over bit by bit.
---
 skops/cli/_update.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skops/cli/_update.py b/skops/cli/_update.py
index e3edecc..c878c09 100644
--- a/skops/cli/_update.py
+++ b/skops/cli/_update.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import argparse
 import json
 import logging
-import shutil
+import os
 import tempfile
 import zipfile
 from pathlib import Path
@@ -74,10 +74,12 @@ def _update_file(
         )
         return None
 
-    with tempfile.TemporaryDirectory() as tmp_dir:
-        tmp_output_file = Path(tmp_dir) / f"{output_file}.tmp"
+    # Write next to the output file, so that they are on the same file system and
+    # the output file is replaced at once.
+    with tempfile.TemporaryDirectory(dir=Path(output_file).parent) as tmp_dir:
+        tmp_output_file = Path(tmp_dir) / "updated.tmp"
         dump(input_model, tmp_output_file)
-        shutil.move(str(tmp_output_file), str(output_file))
+        os.replace(tmp_output_file, output_file)
     logger.info(f"Updated skops file written to {output_file}")
 
 
-- 
2.43.0


From f96b8e6037a9f118ab5950e9e28649903b52764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 21/40] fix: section names can contain the unit separator
 character

It was turned into a slash.
---
 skops/card/_model_card.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index c635f0a..31b7816 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -70,10 +70,8 @@ def split_subsection_names(key: str) -> list[str]:
         The individual (sub)sections.
 
     """
-    placeholder = "\x1f"  # unit separator control character (ASCII control char 31)
-    key = key.replace("\\/", placeholder)
-    parts = (part.strip() for part in key.split("/"))
-    return [part.replace(placeholder, "/") for part in parts]
+    parts = (part.strip() for part in re.split(r"(?<!\\)/", key))
+    return [part.replace("\\/", "/") for part in parts]
 
 
 @dataclass
-- 
2.43.0


From 4101f7a62a10f844aa1894d4c4e7a1e7c70616a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 22/40] fix: table of contents only lists sections that are
 rendered

Subsections of folded sections are not.
---
 skops/card/_model_card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 31b7816..76b4fd2 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1271,7 +1271,8 @@ class Card:
             title = val.title
             yield title, level
 
-            if val.subsections:
+            # like when rendering, subsections of folded sections don't show up
+            if val.subsections and not val.folded:
                 yield from self._iterate_key_section_content(
                     val.subsections,
                     level=level + 1,
-- 
2.43.0


From 9d8611222e3be80e86b625d3dc754177c572807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 23/40] fix: titles of nested tables and alt texts of plots

The title of a nested table was its whole path. If several plots were added at
once, they all got the alt text of the first one.
---
 skops/card/_model_card.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 76b4fd2..1666bb2 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -858,11 +858,10 @@ class Card:
         description = description or ""
         for section_name, plot_path in kwargs.items():
             title = split_subsection_names(section_name)[-1]
-            alt_text = alt_text or title
             section = PlotSection(
                 title=title,
                 content=description,
-                alt_text=alt_text,
+                alt_text=alt_text or title,
                 path=plot_path,
                 folded=folded,
             )
@@ -928,8 +927,9 @@ class Card:
         """
         description = description or ""
         for key, val in kwargs.items():
+            title = split_subsection_names(key)[-1]
             section = TableSection(
-                title=key, content=description, table=val, folded=folded
+                title=title, content=description, table=val, folded=folded
             )
             self._add_single(key, section)
         return self
-- 
2.43.0


From c7051effb17286e769268ce67f381c93782ac531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:56 +0000
Subject: [PATCH 24/40] fix: format column names of tables like their cells

Names that are no strings, that occur several times or that contain line breaks
failed or broke the table, so did pipes.
---
 skops/card/_model_card.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 1666bb2..46d7545 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -172,6 +172,13 @@ class PlotSection(Section):
         return f"{self.__class__.__name__}({self.path})"
 
 
+def _format_table_cell(value: Any) -> str:
+    # replace line breaks with <br /> (html new line tag) so that they are not
+    # converted into new rows, and escape pipes, which would start a new cell
+    text = re.sub(r"\r\n|\r|\n", "<br />", str(value))
+    return re.sub(r"(?<!\\)\|", r"\|", text)
+
+
 @dataclass
 class TableSection(Section):
     """Adds a table to the model card"""
@@ -201,10 +208,12 @@ class TableSection(Section):
         table = PrettyTable()
         table.set_style(TableStyle.MARKDOWN)
         for key, values in self.table.items():
-            # replace \n with <br /> (html new line tag) so that line breaks are
-            # not converted into new rows with PrettyTable.
-            values = [str(value).replace("\n", "<br />") for value in values]
-            table.add_column(key, values)
+            values = [_format_table_cell(value) for value in values]
+            column = _format_table_cell(key)
+            while column in table.field_names:
+                # PrettyTable requires unique names, padding is not significant
+                column += " "
+            table.add_column(column, values)
 
         table = table.get_string()
 
-- 
2.43.0


From c3cd39b6d8f968e157307140bd41f5aa9f1f4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 25/40] fix: parse any outline and table of a model card

Headings were split at slashes, skipped levels and repeated headings lost or
moved sections. Tables without header, with repeated column names, several
bodies or a footer failed or lost content. A failed conversion affected the
indentation of those that followed.
---
 skops/card/_markup.py | 52 +++++++++++++++++++++++--------------------
 skops/card/_parser.py | 26 +++++++++++++++++-----
 2 files changed, 48 insertions(+), 30 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 2e42a25..da29033 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 
 import sys
-from collections.abc import Mapping
 from contextlib import contextmanager
 from typing import Any, Sequence
 
@@ -71,8 +70,10 @@ class Markdown:
     def _indented(self, *, spaces: int):
         """Temporarily increment indentation by one"""
         self._indent_trace.append(spaces)
-        yield
-        self._indent_trace.pop(-1)
+        try:
+            yield
+        finally:
+            self._indent_trace.pop(-1)
 
     def _get_indent(self, *, incr: int = 0) -> str:
         """Get current indentation, optionally incremented"""
@@ -191,8 +192,8 @@ class Markdown:
 
     def _table_cols_old(self, items) -> list[str]:
         columns = []
-        for (content,) in items:
-            column = self.__call__(content)
+        for contents in items:
+            column = "".join(self.__call__(content) for content in contents)
             columns.append(column)
         return columns
 
@@ -210,11 +211,7 @@ class Markdown:
         for row_items in items:
             row = []
             for col_row_item in row_items:
-                if not col_row_item:
-                    content = ""
-                else:
-                    content = col_row_item[0]
-                row.append(self.__call__(content))
+                row.append("".join(self.__call__(part) for part in col_row_item))
             body.append(row)
         return body
 
@@ -239,15 +236,21 @@ class Markdown:
     def _table_new(self, item) -> tuple[list[str], list[list[str]]]:  # pragma: no cover
         # pandoc >= 2.10
         # attr capt specs thead tbody tfoot
-        _, _, _, thead, tbody, _ = item
+        _, _, col_specs, thead, tbody, tfoot = item
         # header
-        (_, thead_bodies) = thead
-        (attr, thead_body) = thead_bodies[0]  # multiple headers?
-        columns = self._table_cols_new(thead_body)
-        # rows
+        (_, thead_rows) = thead
+        if thead_rows:
+            (attr, thead_body), *trows = thead_rows
+            columns = self._table_cols_new(thead_body)
+        else:
+            # no header
+            columns, trows = [""] * len(col_specs), []
+        # rows, markdown does not know about groups of rows
         # attr rhc hd bd
-        _, _, _, trows = tbody[0]  # multiple groups of rows?
-        body = self._table_body_new(trows)
+        for _, _, head_rows, body_rows in tbody:
+            trows = trows + head_rows + body_rows
+        (_, tfoot_rows) = tfoot
+        body = self._table_body_new(trows + tfoot_rows)
         return columns, body
 
     def _table(self, item) -> str:
@@ -258,13 +261,14 @@ class Markdown:
             # pandoc < 2.5
             columns, body = self._table_old(item)
 
-        table: Mapping[str, Sequence[Any]]
-        if not body:
-            table = {key: [] for key in columns}
-        else:
-            # body is row oriented, transpose to column oriented
-            data_transposed = zip(*body)
-            table = {key: val for key, val in zip(columns, data_transposed)}
+        # body is row oriented, transpose to column oriented
+        data_transposed = zip(*body) if body else [()] * len(columns)
+        table: dict[str, Sequence[Any]] = {}
+        for column, data in zip(columns, data_transposed):
+            while column in table:
+                # names can occur several times, padding is not significant
+                column += " "
+            table[column] = data
 
         res = TableSection(title="", content="", table=table).format()
         return res
diff --git a/skops/card/_parser.py b/skops/card/_parser.py
index 35a0ad4..4797b87 100644
--- a/skops/card/_parser.py
+++ b/skops/card/_parser.py
@@ -61,11 +61,19 @@ class PandocParser:
     def _add_section(
         self, section_name: str, card: Card, section_trace: list[str]
     ) -> Section:
-        # Add a new section to the card, which can be a subsection, and return
-        # it.
-        section_name = "/".join(section_trace)
-        cur_section = card._add_single(section_name, "")
-        return cur_section
+        # Add a new section to the card, which can be a subsection of the
+        # section that the trace leads to, add it to the trace and return it.
+        siblings = card._select(section_trace, create=False)
+        key = section_name
+        count = 1
+        while key in siblings:
+            # headers need not be unique
+            count += 1
+            key = f"{section_name} ({count})"
+
+        siblings[key] = Section(title=section_name, content="")
+        section_trace.append(key)
+        return siblings[key]
 
     def _add_content(self, content: str, section: Section | None) -> None:
         # Add content to the current section
@@ -120,6 +128,7 @@ class PandocParser:
         """
         section: Section | None = None
         section_trace: list[str] = []
+        level_trace: list[int] = []
         card = Card(None, template=None)
 
         # Parsing the flat structure, not recursively as in pandocfilters. After
@@ -130,7 +139,12 @@ class PandocParser:
             if item["t"] == "Header":
                 content, level = self._parse_header(item, section_trace=section_trace)
                 res = self._post_process(content)
-                section_trace = section_trace[: level - 1] + [res]
+                # levels can be skipped, thus the parent is the section of the
+                # closest header with a lower level
+                while level_trace and level_trace[-1] >= level:
+                    level_trace.pop()
+                    section_trace.pop()
+                level_trace.append(level)
                 section = self._add_section(res, card=card, section_trace=section_trace)
             else:
                 res = self._post_process(self.mapping(item))
-- 
2.43.0


From 676f7dcbba9e09f9963957fd180570aec4313ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 26/40] fix: restore the items of container subclasses as they
 were

---
 skops/io/_audit.py   |  4 +++-
 skops/io/_general.py | 56 ++++++++++++++++++++++++++++++++++----------
 skops/io/_utils.py   |  3 ++-
 3 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index f3e24cf..16cd085 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -165,7 +165,9 @@ class Node:
         self._constructed = self._construct()
         attrs = self.children.get("instance_attrs")
         if attrs is not None and isinstance(self._constructed, CONTAINER_TYPES):
-            vars(self._constructed).update(attrs.construct())
+            instance_attrs = vars(self._constructed)
+            instance_attrs.clear()
+            instance_attrs.update(attrs.construct())
         return self._constructed
 
     def _construct(self):
diff --git a/skops/io/_general.py b/skops/io/_general.py
index b7188f1..a616ef5 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -6,7 +6,7 @@ import json
 import operator
 import struct
 import uuid
-from collections import defaultdict
+from collections import OrderedDict, defaultdict
 from enum import Enum
 from functools import partial
 from reprlib import Repr
@@ -55,6 +55,23 @@ def _get_key_name(key: Any, *used: Container[str]) -> str:
     return name
 
 
+# The items of containers are read and restored with the methods of the builtin
+# types, since subclasses are free to override these methods.
+
+
+def _get_items(obj: dict[Any, Any]) -> list[tuple[Any, Any]]:
+    if isinstance(obj, OrderedDict):
+        return list(OrderedDict.items(obj))
+    return list(dict.items(obj))
+
+
+def _set_items(obj: dict[Any, Any], items: list[tuple[Any, Any]]) -> None:
+    cls = OrderedDict if isinstance(obj, OrderedDict) else dict
+    cls.clear(obj)
+    for key, value in items:
+        cls.__setitem__(obj, key, value)
+
+
 def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
         "__class__": obj.__class__.__name__,
@@ -62,10 +79,11 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "DictNode",
     }
 
-    key_types = get_state([type(key) for key in obj.keys()], save_context)
+    items = _get_items(obj)
+    key_types = get_state([type(key) for key, _ in items], save_context)
     content = {}
-    str_keys = {key for key in obj.keys() if isinstance(key, str)}
-    for key, value in obj.items():
+    str_keys = {key for key, _ in items if isinstance(key, str)}
+    for key, value in items:
         if np.isscalar(key) and hasattr(key, "item"):
             # convert numpy value to python object
             key = key.item()  # type: ignore
@@ -97,13 +115,15 @@ class DictNode(Node):
     def _construct(self):
         content = gettype(self.module_name, self.class_name)()
         key_types = self.children["key_types"].construct()
+        items = []
         for k_type, (key, val) in zip(key_types, self.children["content"].items()):
             if k_type is bool or k_type is np.bool_:
                 # any non-empty string is truthy
                 key = key.strip() == "true"
             elif isinstance(k_type, type) and not issubclass(k_type, str):
                 key = key.strip()
-            content[k_type(key)] = val.construct()
+            items.append((k_type(key), val.construct()))
+        _set_items(content, items)
         return content
 
 
@@ -116,7 +136,7 @@ def defaultdict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
     content = {}
     # explicitly pass a dict object instead of _DictWithDeprecatedKeys and
     # later construct a _DictWithDeprecatedKeys object.
-    content["main"] = get_state(dict(obj), save_context)
+    content["main"] = get_state(dict(_get_items(obj)), save_context)
     content["default_factory"] = get_state(obj.default_factory, save_context)
     res["content"] = content
     return res
@@ -143,7 +163,10 @@ class DefaultDictNode(Node):
     def _construct(self):
         cls = gettype(self.module_name, self.class_name)
         default_factory = self.children["default_factory"].construct()
-        return cls(default_factory, self.children["main"].construct())
+        main = self.children["main"].construct()
+        content = cls(default_factory, main)
+        _set_items(content, list(main.items()))
+        return content
 
 
 def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -152,7 +175,7 @@ def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__module__": get_module(type(obj)),
         "__loader__": "ListNode",
     }
-    content = [get_state(value, save_context) for value in obj]
+    content = [get_state(value, save_context) for value in list.__iter__(obj)]
 
     res["content"] = content
     return res
@@ -176,7 +199,11 @@ class ListNode(Node):
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
-        return content_type([item.construct() for item in self.children["content"]])
+        items = [item.construct() for item in self.children["content"]]
+        content = content_type(items)
+        if isinstance(content, list):
+            list.__setitem__(content, slice(None), items)
+        return content
 
 
 def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -185,7 +212,7 @@ def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__module__": get_module(type(obj)),
         "__loader__": "SetNode",
     }
-    content = [get_state(value, save_context) for value in obj]
+    content = [get_state(value, save_context) for value in set.__iter__(obj)]
     res["content"] = content
     return res
 
@@ -208,7 +235,12 @@ class SetNode(Node):
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
-        return content_type([item.construct() for item in self.children["content"]])
+        items = [item.construct() for item in self.children["content"]]
+        content = content_type(items)
+        if isinstance(content, set):
+            set.clear(content)
+            set.update(content, items)
+        return content
 
 
 def is_namedtuple(t: type) -> bool:
@@ -229,7 +261,7 @@ def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__module__": get_module(type(obj)),
         "__loader__": "TupleNode",
     }
-    content = tuple(get_state(value, save_context) for value in obj)
+    content = tuple(get_state(value, save_context) for value in tuple.__iter__(obj))
     res["content"] = content
     return res
 
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index 4ecfa46..5e5d307 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -203,7 +203,8 @@ def get_state(value, save_context: SaveContext) -> dict[str, Any]:
         if any(hasattr(value, name) for name in copyreg._slotnames(type(value))):  # type: ignore
             raise UnsupportedTypeException(value)
         attrs = getattr(value, "__dict__", None)
-        if attrs:
+        if attrs is not None:
+            # even if empty, the constructor could set attributes
             res["instance_attrs"] = get_state(attrs, save_context)
 
     res["__id__"] = __id__
-- 
2.43.0


From 40b4d9e2febd2f455d1844eea8cc7dedc3a148f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 27/40] fix: refuse strings with surrogate pairs, which json
 does not restore

---
 skops/io/_general.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index a616ef5..9d5009f 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -39,6 +39,15 @@ arepr = Repr()
 arepr.maxstring = 24
 
 
+def _is_json_str(obj: Any) -> bool:
+    """Whether json restores the string
+
+    A string with a surrogate pair, i.e. two code points that are no characters
+    on their own, is loaded as the one character that the pair encodes.
+    """
+    return obj.isascii() or json.loads(json.dumps(obj)) == obj
+
+
 def _get_key_name(key: Any, *used: Container[str]) -> str:
     """Get the name under which the value of a dict key is stored.
 
@@ -89,6 +98,8 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             key = key.item()  # type: ignore
         if not isinstance(key, str):
             key = _get_key_name(key, str_keys, content)
+        elif not _is_json_str(key):
+            raise UnsupportedTypeException(obj)
         content[key] = get_state(value, save_context)
     res["content"] = content
     res["key_types"] = key_types
@@ -421,6 +432,8 @@ def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         is_json = item is None or type(item) in (bool, int, float, str)
         if not is_json or item in (float("inf"), -float("inf")) or item != item:
             raise UnsupportedTypeException(obj)
+        if isinstance(item, str) and not _is_json_str(item):
+            raise UnsupportedTypeException(obj)
 
     res = {
         "__class__": obj.__class__.__name__,
@@ -485,6 +498,9 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # the ones for which we can get/set attributes through
     # __getstate__/__setstate__ or reading/writing to __dict__.
 
+    if type(obj) is str and not _is_json_str(obj):
+        raise UnsupportedTypeException(obj)
+
     # We first check if the object can be serialized using json. Instances of
     # subclasses (e.g. of str) are not, since json would drop their type.
     try:
-- 
2.43.0


From 4c9fac8f0542a23c756500acbffcea9d3c7248ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 28/40] fix: only containers have instance attributes

---
 skops/io/_audit.py   |  6 +++++-
 skops/io/_general.py | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index 16cd085..34e4847 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -130,6 +130,10 @@ class Node:
         multiple times.
     """
 
+    # Whether the node is for containers, which can have attributes besides
+    # their items if they are instances of a subclass
+    has_instance_attrs = False
+
     def __init__(
         self,
         state: dict[str, Any],
@@ -383,7 +387,7 @@ def get_tree(
             )
 
     loaded_tree = node_cls(state, load_context, trusted=trusted)
-    if state.get("instance_attrs") is not None:
+    if loaded_tree.has_instance_attrs and state.get("instance_attrs") is not None:
         loaded_tree.children["instance_attrs"] = get_tree(
             state["instance_attrs"], load_context, trusted=trusted
         )
diff --git a/skops/io/_general.py b/skops/io/_general.py
index 9d5009f..13f90cc 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -107,6 +107,8 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
 
 
 class DictNode(Node):
+    has_instance_attrs = True
+
     def __init__(
         self,
         state: dict[str, Any],
@@ -154,6 +156,8 @@ def defaultdict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
 
 
 class DefaultDictNode(Node):
+    has_instance_attrs = True
+
     def __init__(
         self,
         state: dict[str, Any],
@@ -193,6 +197,8 @@ def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
 
 
 class ListNode(Node):
+    has_instance_attrs = True
+
     def __init__(
         self,
         state: dict[str, Any],
@@ -229,6 +235,8 @@ def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
 
 
 class SetNode(Node):
+    has_instance_attrs = True
+
     def __init__(
         self,
         state: dict[str, Any],
@@ -278,6 +286,8 @@ def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
 
 
 class TupleNode(Node):
+    has_instance_attrs = True
+
     def __init__(
         self,
         state: dict[str, Any],
-- 
2.43.0


From 5ea256f0aa6ed3de7073a7f4218c4bc1b0b671c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 29/40] fix: empty numpy bytes scalars are restored as empty

---
 skops/io/_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index bc00e1f..629ee63 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -45,7 +45,10 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             res["shape"] = get_state(obj.shape, save_context)
         else:
             data_buffer = io.BytesIO()
-            np.save(data_buffer, obj, allow_pickle=False)
+            # numpy converts an empty bytes scalar to an array of one null byte
+            is_empty = isinstance(obj, np.bytes_) and len(obj) == 0
+            array = np.ndarray((), dtype=obj.dtype) if is_empty else obj
+            np.save(data_buffer, array, allow_pickle=False)
             # Memoize the object and then check if it's file name (containing
             # the object id) already exists. If it does, there is no need to
             # save the object again. Memoizitation is necessary since for
-- 
2.43.0


From 150e3c1ca7396eba228290d1bf48d157994da618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:23 +0000
Subject: [PATCH 30/40] fix: numpy string keys and attributes of array
 subclasses

---
 skops/io/_general.py | 5 ++++-
 skops/io/_numpy.py   | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 13f90cc..9acb588 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -93,7 +93,10 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     content = {}
     str_keys = {key for key, _ in items if isinstance(key, str)}
     for key, value in items:
-        if np.isscalar(key) and hasattr(key, "item"):
+        if isinstance(key, np.str_):
+            # item would drop trailing null characters
+            key = str.__str__(key)
+        elif np.isscalar(key) and hasattr(key, "item"):
             # convert numpy value to python object
             key = key.item()  # type: ignore
         if not isinstance(key, str):
diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 629ee63..812a615 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -20,11 +20,14 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "NdArrayNode",
     }
 
-    if isinstance(obj, np.ndarray) and getattr(obj, "__dict__", None):
+    if isinstance(obj, np.ndarray) and hasattr(obj, "__dict__"):
         # attributes of instances of subclasses are not stored, only those that
         # are the same for each instance are restored
         restored = vars(np.asarray(obj).view(type(obj)))
-        if any(restored.get(key) is not val for key, val in vars(obj).items()):
+        attrs = vars(obj)
+        if restored.keys() != attrs.keys() or any(
+            restored[key] is not attrs[key] for key in attrs
+        ):
             raise UnsupportedTypeException(obj)
     if obj.dtype.type is np.record and not isinstance(obj, np.recarray):
         # would be loaded as np.void
-- 
2.43.0


From d491df9d3be91a559b0cc11b0b4212591e94c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:00 +0000
Subject: [PATCH 31/40] fix: the dtype node only returns dtypes of arrays

---
 skops/io/_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 812a615..f8e7f95 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -327,7 +327,10 @@ class DTypeNode(Node):
     def _construct(self):
         # we use numpy's internal save mechanism to store the dtype by
         # saving/loading an empty array with that dtype.
-        return self.children["content"].construct().dtype
+        content = self.children["content"].construct()
+        if not isinstance(content, (np.ndarray, np.generic)):
+            raise TypeError(f"Expected an array for the dtype, got {type(content)}.")
+        return content.dtype
 
 
 # tuples of type and function that gets the state of that type
-- 
2.43.0


From 40cdd0f79f476d5d1297e350df95b7b33ac02fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 32/40] fix: trust the numpy dtype type by default

---
 skops/io/_numpy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f8e7f95..0c78614 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -321,8 +321,7 @@ class DTypeNode(Node):
         self.children = {
             "content": get_tree(state["content"], load_context, trusted=trusted)
         }
-        # TODO: what should we trust?
-        self.trusted = self._get_trusted(trusted, [])
+        self.trusted = self._get_trusted(trusted, ["numpy.dtype"])
 
     def _construct(self):
         # we use numpy's internal save mechanism to store the dtype by
-- 
2.43.0


From ed394812907dbfb83fa9931f574b2598910a28db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 33/40] fix: check the state of decision trees, which could
 crash the interpreter

---
 skops/io/_sklearn.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 3564d21..8857624 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import Any, Optional, Sequence, Type
 
+import numpy as np
 from sklearn.cluster import Birch
 from sklearn.tree._tree import Tree
 
@@ -224,6 +225,29 @@ class TreeNode(ReduceNode):
         self.trusted = self._get_trusted(trusted, [get_module(Tree) + ".Tree"])
         super().__init__(state, load_context, constructor=Tree, trusted=self.trusted)
 
+    def _construct(self):
+        # The compiled type accesses these without checking them, which could
+        # crash the interpreter.
+        args = self.children["args"].construct()
+        if not (
+            isinstance(args, tuple)
+            and len(args) == 3
+            and isinstance(args[1], np.ndarray)
+            and args[1].shape == (args[2],)
+        ):
+            raise ValueError("Invalid arguments of a decision tree.")
+
+        attrs = self.children["attrs"].construct()
+        if attrs and not (
+            isinstance(attrs["nodes"], np.ndarray)
+            and isinstance(attrs["values"], np.ndarray)
+            and attrs["nodes"].ndim == 1
+            and attrs["node_count"] <= len(attrs["nodes"])
+        ):
+            raise ValueError("Invalid state of a decision tree.")
+
+        return super()._construct()
+
 
 def loss_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     reduce = obj.__reduce__()
-- 
2.43.0


From 581f67b324203a41bd1ae381a56c42cc0f8423e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 34/40] fix: visualize names that cannot be encoded without
 rich

---
 skops/io/_visualize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 3bbacae..6d8534d 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -120,11 +120,16 @@ def _get_node_label(
     return node_val
 
 
+def _printable(text: str) -> str:
+    """Escape what cannot be printed, i.e. lone surrogates."""
+    return text.encode("utf-8", "backslashreplace").decode("utf-8")
+
+
 def _escape(text: str) -> str:
     """Escape what rich would interpret as markup or what cannot be printed."""
     from rich.markup import escape
 
-    return escape(text.encode("utf-8", "backslashreplace").decode("utf-8"))
+    return escape(_printable(text))
 
 
 def _traverse_tree(nodes_iter, show, **kwargs):
@@ -203,7 +208,7 @@ def pretty_print_tree(
             nodes_iter, show, **kwargs
         ):
             if is_first_node:
-                print(f"{node.key}: {label}")
+                print(_printable(f"{node.key}: {label}"))
                 continue
 
             # Level diff of -1 means that this node is a child of the previous node.
@@ -226,7 +231,7 @@ def pretty_print_tree(
                 print("├──", end="")
                 prefix += "│   "
 
-            print(f" {node.key}: {label}")
+            print(_printable(f" {node.key}: {label}"))
 
 
 def _is_shown(parent: Node, key: str, child: VALID_NODE_CHILD_TYPES) -> bool:
-- 
2.43.0


From 6d888295478a1aa2bd6e28ea0f2d6b3d9525cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 35/40] fix: show what is untrusted inside of object arrays in
 visualize

---
 skops/io/_visualize.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 6d8534d..6069e0d 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -330,10 +330,9 @@ def walk_tree(
     )
 
     # TYPES WHOSE CHILDREN IT MAKES NO SENSE TO VISIT
-    # TODO: For better security, we should check the schema if we return early,
-    # otherwise something nefarious could be hidden inside (however, if there
-    # is, the node should be marked as unsafe)
-    if isinstance(node, SKIPPED_TYPES):
+    # unless there is something untrusted inside, which must not stay hidden (e.g.
+    # an element of an object array)
+    if isinstance(node, SKIPPED_TYPES) and (node.is_safe() or not node.is_self_safe()):
         return
 
     yield from walk_tree(
-- 
2.43.0


From fc1df8572a142301804d2f151f76d28425ee3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 36/40] fix: visualize functions in archives of protocol 0

---
 skops/io/old/_general_v0.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/skops/io/old/_general_v0.py b/skops/io/old/_general_v0.py
index 59991c6..be0b05b 100644
--- a/skops/io/old/_general_v0.py
+++ b/skops/io/old/_general_v0.py
@@ -19,20 +19,16 @@ class FunctionNode(Node):
         super().__init__(state, load_context, trusted)
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, default=SCIPY_UFUNC_TYPE_NAMES)
-        self.children: dict = {"content": state["content"]}
+        # the function is named in the content of the node
+        self.module_name = state["content"]["module_path"]
+        self.class_name = state["content"]["function"]
+        self.children = {}
 
     def _construct(self):
-        return _import_obj(
-            self.children["content"]["module_path"],
-            self.children["content"]["function"],
-        )
+        return _import_obj(self.module_name, self.class_name)
 
     def _get_function_name(self) -> str:  # pragma: no cover
-        return (
-            self.children["content"]["module_path"]
-            + "."
-            + self.children["content"]["function"]
-        )
+        return self.module_name + "." + self.class_name
 
     def get_unsafe_set(  # pragma: no cover
         self, visited: Optional[set[int]] = None
-- 
2.43.0


From 34e1c5d49a70e2eeb7d667cc7f4e7511f407e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 37/40] fix: divider of tables without rows whose column names
 are short

---
 skops/card/_model_card.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 46d7545..278378c 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -210,6 +210,10 @@ class TableSection(Section):
         for key, values in self.table.items():
             values = [_format_table_cell(value) for value in values]
             column = _format_table_cell(key)
+            if not values:
+                # without rows, PrettyTable doesn't make the columns wide enough
+                # for a valid divider, which has at least one hyphen
+                column = column.center(3)
             while column in table.field_names:
                 # PrettyTable requires unique names, padding is not significant
                 column += " "
-- 
2.43.0


From 788dc9353585fc31d10141b3f86a9c6eec68b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 38/40] fix: converting a figure doesn't change the parsed item

---
 skops/card/_markup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index da29033..c7b044b 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -170,9 +170,9 @@ class Markdown:
         if body_type != "Plain":
             raise ValueError(f"Cannot deal with figure of type '{body_type}'")
 
-        plain_fig = body["c"][0]["c"]
-        plain_fig[2][1] = "fig:"
-        return self._image(plain_fig)
+        # don't change the item itself, the figure type is only for _image
+        attr, caption, (dest, _) = body["c"][0]["c"]
+        return self._image((attr, caption, (dest, "fig:")))
 
     @staticmethod
     def _code_block(item: tuple[tuple[int, list[str], list[str]], str]) -> str:
-- 
2.43.0


From b40f39f78c8c8701eeb7408c6477de52b4c4e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 39/40] fix: permutation importances save their own figure, not
 the current one

---
 skops/card/_model_card.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 278378c..cdb1079 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1028,7 +1028,7 @@ class Card:
                 " different filename for the plot."
             )
         sorted_importances_idx = permutation_importances.importances_mean.argsort()
-        _, ax = plt.subplots()
+        fig, ax = plt.subplots()
         boxplot(
             ax,
             x=permutation_importances.importances[sorted_importances_idx].T,
@@ -1037,7 +1037,7 @@ class Card:
         )
         ax.set_title(plot_name)
         ax.set_xlabel("Decrease in Score")
-        plt.savefig(plot_file)
+        fig.savefig(plot_file)
         self.add_plot(description=description, alt_text=None, **{plot_name: plot_file})
 
         return self
-- 
2.43.0


From 64c5e77844bfc815eb13db2f3b7571286ab434dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 40/40] fix: dumping ufuncs in several threads keeps the
 warning filters

---
 skops/io/_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index 5e5d307..00be3bb 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import copyreg
 import importlib
 import sys
+import threading
 import warnings
 from dataclasses import dataclass, field
 from functools import singledispatch
@@ -32,6 +33,9 @@ def _getattribute(obj, name):
     return obj, parent
 
 
+_WARNINGS_LOCK = threading.RLock()
+
+
 # This function is particularly used to detect the path of functions such as
 # ufuncs. It returns the full path, instead of returning the module name.
 def whichmodule(obj: Any, name: str) -> str:
@@ -49,7 +53,8 @@ def whichmodule(obj: Any, name: str) -> str:
         ):
             continue
         try:
-            with warnings.catch_warnings():
+            # warning filters are global, so only one thread at a time may change them
+            with _WARNINGS_LOCK, warnings.catch_warnings():
                 # this is to silence numpy.core import warnings
                 warnings.simplefilter("ignore", DeprecationWarning)
                 if _getattribute(module, name)[0] is obj:
-- 
2.43.0

