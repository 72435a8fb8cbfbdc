From 1075ffe47ddd92657603b20c6c2df5cf8728be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 01/71] fix: ListConfig slice access follows Python slice
 semantics

---
 omegaconf/listconfig.py | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 20a8f81..12ba272 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -1,5 +1,4 @@
 import copy
-import itertools
 from typing import (
     Any,
     Callable,
@@ -200,16 +199,11 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             assert isinstance(self.__dict__["_content"], list)
             if isinstance(index, slice):
                 result = []
-                start, stop, step = self._correct_index_params(index)
-                for slice_idx in itertools.islice(
-                    range(0, len(self)), start, stop, step
-                ):
+                for slice_idx in range(*index.indices(len(self))):
                     val = self._resolve_with_default(
                         key=slice_idx, value=self.__dict__["_content"][slice_idx]
                     )
                     result.append(val)
-                if index.step and index.step < 0:
-                    result.reverse()
                 return result
             else:
                 return self._resolve_with_default(
@@ -218,31 +212,6 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         except Exception as e:
             self._format_and_raise(key=index, value=None, cause=e)
 
-    def _correct_index_params(self, index: slice) -> Tuple[int, int, int]:
-        start = index.start
-        stop = index.stop
-        step = index.step
-        if index.start and index.start < 0:
-            start = self.__len__() + index.start
-        if index.stop and index.stop < 0:
-            stop = self.__len__() + index.stop
-        if index.step and index.step < 0:
-            step = abs(step)
-            if start and stop:
-                if start > stop:
-                    start, stop = stop + 1, start + 1
-                else:
-                    start = stop = 0
-            elif not start and stop:
-                start = list(range(self.__len__() - 1, stop, -step))[0]
-                stop = None
-            elif start and not stop:
-                stop = start + 1
-                start = (stop - 1) % step
-            else:
-                start = (self.__len__() - 1) % step
-        return start, stop, step
-
     def _set_at_index(self, index: Union[int, slice], value: Any) -> None:
         self._set_item_impl(index, value)
 
-- 
2.43.0


From c48344d7a1b2e7a160995041873d86f90575edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 02/71] fix: ListConfig.insert with an out of range or negative
 index no longer corrupts the list

---
 omegaconf/listconfig.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 12ba272..85b0b5c 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -291,6 +291,11 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if self._is_missing():
                 raise MissingMandatoryValue("Cannot insert into missing ListConfig")
 
+            # clamp the index to the list bounds, like list.insert()
+            if index < 0:
+                index = max(0, len(self) + index)
+            else:
+                index = min(index, len(self))
             try:
                 assert isinstance(self.__dict__["_content"], list)
                 # insert place holder
-- 
2.43.0


From eab12fb99a04f3bcb280ba00ff4b7701b5af7e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 03/71] fix: ListConfig.insert no longer re-parents the
 inserted node in its original config

---
 omegaconf/listconfig.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 85b0b5c..553649a 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -298,6 +298,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 index = min(index, len(self))
             try:
                 assert isinstance(self.__dict__["_content"], list)
+                # the input node may belong to another config, do not modify it
+                if isinstance(item, Node):
+                    item = copy.deepcopy(item)
                 # insert place holder
                 self.__dict__["_content"].insert(index, None)
                 is_optional, ref_type = _resolve_optional(self._metadata.element_type)
-- 
2.43.0


From 47c8b76139a20cdec9bc5f85465c298b9d8b0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 04/71] fix: ListConfig slice assignment keeps missing values
 and interpolations of other items

---
 omegaconf/listconfig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 553649a..95a56b6 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -254,7 +254,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
                 # Reinitialize self with work_copy
                 self.clear()
-                self.extend(work_copy)
+                self.__dict__["_content"] = work_copy.__dict__["_content"]
+                self._re_parent()
             else:
                 self._set_at_index(index, value)
         except Exception as e:
-- 
2.43.0


From fad3c73e39685c2c88d6c8475123bcdfffbe775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 05/71] fix: ListConfig assignment to a negative index sets the
 right node key

---
 omegaconf/listconfig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 95a56b6..166e9cd 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -257,6 +257,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 self.__dict__["_content"] = work_copy.__dict__["_content"]
                 self._re_parent()
             else:
+                if isinstance(index, int) and -len(self) <= index < 0:
+                    index += len(self)
                 self._set_at_index(index, value)
         except Exception as e:
             self._format_and_raise(key=index, value=value, cause=e)
-- 
2.43.0


From 61d4de4a00bb63aa05ec5dc832fd31ff54db9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 06/71] fix: extending a ListConfig with itself terminates

---
 omegaconf/listconfig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 166e9cd..e4a991e 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -327,7 +327,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
     def extend(self, lst: Iterable[Any]) -> None:
         assert isinstance(lst, (tuple, list, ListConfig))
-        for x in lst:
+        # iterate over a copy: lst may be self
+        for x in list(lst):
             self.append(x)
 
     def remove(self, x: Any) -> None:
-- 
2.43.0


From 9dd72541aa8e3a91d5f4a460be2ffba35f41b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 07/71] fix: ListConfig.sort updates the keys of the sorted
 nodes

---
 omegaconf/listconfig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index e4a991e..22dcc22 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -486,6 +486,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
             assert isinstance(self.__dict__["_content"], list)
             self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            self._update_keys()
 
         except Exception as e:
             self._format_and_raise(key=None, value=None, cause=e)
-- 
2.43.0


From fcfa99d774cc1b41c00e25899c86b489c22e74ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 08/71] fix: extending list merge updates the keys of the
 appended nodes

---
 omegaconf/basecontainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 14e8667..f477020 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -483,6 +483,7 @@ class BaseContainer(Container, ABC):
                         dest.__dict__["_content"].append(entry)
             else:  # REPLACE (default)
                 dest.__dict__["_content"] = temp_target.__dict__["_content"]
+            dest._update_keys()
 
         # explicit flags on the source config are replacing the flag values in the destination
         flags = src._metadata.flags
-- 
2.43.0


From 656759de33f4f72c78a1dea7a2a514ad2087fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 09/71] fix: an unresolvable interpolation is not equal to None

---
 omegaconf/basecontainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index f477020..412b0eb 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -709,6 +709,9 @@ class BaseContainer(Container, ABC):
             assert isinstance(ret, bool)
             return ret
         else:
+            if dv1 is None or dv2 is None:
+                # an interpolation that cannot be resolved is not equal to a value
+                return False
             dv1 = _get_value(dv1)
             dv2 = _get_value(dv2)
             ret = dv1 == dv2
-- 
2.43.0


From 4a1e7eb156b517b893f0e81017de963263a24e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 10/71] fix: quote strings such as 1._e5 that would be loaded
 back from yaml as floats

---
 omegaconf/_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 57d0ef4..424e292 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -117,7 +117,12 @@ class OmegaConfDumper(BaseDumper):  # type: ignore
 
     @staticmethod
     def str_representer(dumper: yaml.Dumper, data: str) -> yaml.ScalarNode:
-        with_quotes = yaml_is_bool(data) or is_int(data) or is_float(data)
+        with_quotes = (
+            yaml_is_bool(data)
+            or is_int(data)
+            or is_float(data)
+            or is_float(data.replace("_", ""))  # yaml ignores underscores in floats
+        )
         return dumper.represent_scalar(
             yaml.resolver.BaseResolver.DEFAULT_SCALAR_TAG,
             data,
-- 
2.43.0


From 2a9771abdfbe72c7d9b56f8c7bc21a2430f4b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:38 +0000
Subject: [PATCH 11/71] fix: values of read-only Union fields cannot be changed

---
 omegaconf/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 39667d9..1af68f3 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -29,6 +29,7 @@ from .errors import (
     InterpolationToMissingValueError,
     InterpolationValidationError,
     MissingMandatoryValue,
+    ReadonlyConfigError,
     UnsupportedInterpolationType,
     ValidationError,
 )
@@ -830,7 +831,7 @@ class UnionNode(Box):
                     flags={"convert": False},
                 ),
             )
-            self._set_value(content)
+            self._set_value_impl(content)
         except Exception as ex:
             format_and_raise(node=None, key=key, value=content, msg=str(ex), cause=ex)
 
@@ -872,6 +873,8 @@ class UnionNode(Box):
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
         previous_content = self.__dict__["_content"]
         previous_metadata = self.__dict__["_metadata"]
+        if self._get_flag("readonly"):
+            raise ReadonlyConfigError("Cannot set value of read-only config node")
         try:
             self._set_value_impl(value, flags)
         except Exception as e:
-- 
2.43.0


From ca0a50ef17d0902d94ec6c0cabca84a36d01b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 12/71] fix: merging None, an interpolation or an empty list
 into a read-only container is rejected

---
 omegaconf/basecontainer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 412b0eb..091f26f 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -315,6 +315,8 @@ class BaseContainer(Container, ABC):
         #  - None => set the destination DictConfig to None
         #  - an interpolation => set the destination DictConfig to be the same interpolation
         if src._is_none() or src._is_interpolation():
+            if dest._get_flag("readonly"):
+                raise ReadonlyConfigError("Cannot change read-only config container")
             dest._set_value(src._value())
             _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
             return
@@ -451,6 +453,14 @@ class BaseContainer(Container, ABC):
         assert isinstance(dest, ListConfig)
         assert isinstance(src, ListConfig)
 
+        replaces_dest = (
+            src._is_none()
+            or src._is_interpolation()
+            or (list_merge_mode == ListMergeMode.REPLACE and not src._is_missing())
+        )
+        if replaces_dest and dest._get_flag("readonly"):
+            raise ReadonlyConfigError("ListConfig is read-only")
+
         if src._is_none():
             dest._set_value(None)
         elif src._is_missing():
-- 
2.43.0


From 9cc16516d73e045428754ccc0ad6b3c63c79cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 13/71] fix: OmegaConf.resolve does not modify read-only
 container interpolations

---
 omegaconf/_impl.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 49be303..e45ea7e 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -1,7 +1,11 @@
 from typing import Any
 
 from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNode
-from omegaconf.errors import ConfigTypeError, InterpolationToMissingValueError
+from omegaconf.errors import (
+    ConfigTypeError,
+    InterpolationToMissingValueError,
+    ReadonlyConfigError,
+)
 from omegaconf.nodes import InterpolationResultNode
 
 from ._utils import (
@@ -13,6 +17,12 @@ from ._utils import (
 )
 
 
+def _set_resolved_value(node: Node, value: Any) -> None:
+    if isinstance(node, Container) and node._get_flag("readonly"):
+        raise ReadonlyConfigError("Cannot set value of read-only config node")
+    node._set_value(value)
+
+
 def _resolve_container_value(cfg: Container, key: Any) -> None:
     node = cfg._get_child(key)
     assert isinstance(node, Node)
@@ -20,7 +30,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
         try:
             resolved = node._dereference_node()
         except InterpolationToMissingValueError:
-            node._set_value(MISSING)
+            _set_resolved_value(node, MISSING)
         else:
             if isinstance(resolved, Container):
                 _resolve(resolved)
@@ -33,7 +43,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
             if isinstance(resolved, Container) and isinstance(node, ValueNode):
                 cfg[key] = resolved
             else:
-                node._set_value(_get_value(resolved))
+                _set_resolved_value(node, _get_value(resolved))
     else:
         _resolve(node)
 
@@ -44,9 +54,9 @@ def _resolve(cfg: Node) -> Node:
         try:
             resolved = cfg._dereference_node()
         except InterpolationToMissingValueError:
-            cfg._set_value(MISSING)
+            _set_resolved_value(cfg, MISSING)
         else:
-            cfg._set_value(resolved._value())
+            _set_resolved_value(cfg, resolved._value())
 
     if isinstance(cfg, DictConfig):
         for k in cfg.keys():
-- 
2.43.0


From 83a0eccaf3d7aedd1b552d065d0c5564de20c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 14/71] fix: full key of a container held in a list

---
 omegaconf/basecontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 091f26f..fa31fda 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -810,7 +810,7 @@ class BaseContainer(Container, ABC):
             cur = self
             if cur._key() is None:
                 return ""
-            full_key = self._key()
+            full_key = prepand("", type(cur._get_parent()), type(cur), cur._key())
 
         assert cur is not None
         memo = {id(cur)}  # remember already visited nodes so as to detect cycles
-- 
2.43.0


From e01cacd51058a6f70ca4b3e50e9f1564ee72e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 15/71] fix: a failing ListConfig.sort leaves the list
 unchanged

---
 omegaconf/listconfig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 22dcc22..30b1add 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -485,7 +485,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                     return key(x._value())
 
             assert isinstance(self.__dict__["_content"], list)
-            self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            self.__dict__["_content"][:] = sorted(
+                self.__dict__["_content"], key=key1, reverse=reverse
+            )
             self._update_keys()
 
         except Exception as e:
-- 
2.43.0


From 030826dfbc9ee6a45809be1731342c53291a8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 16/71] fix: loading yaml that reuses an anchored mapping with
 merge keys

---
 omegaconf/_utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 424e292..fb00f02 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -143,7 +143,19 @@ def yaml_is_bool(b: str) -> bool:
 
 def get_yaml_loader() -> Any:
     class OmegaConfLoader(BaseLoader):  # type: ignore
-        def construct_mapping(self, node: yaml.Node, deep: bool = False) -> Any:
+        def __init__(self, stream: Any) -> None:
+            super().__init__(stream)
+            self._flattened: Dict[int, yaml.Node] = {}
+
+        def flatten_mapping(self, node: yaml.MappingNode) -> None:
+            # An anchored node can be flattened more than once: merge keys are
+            # already replaced by what they merge after the first time.
+            if id(node) not in self._flattened:
+                self._flattened[id(node)] = node
+                self._check_duplicate_keys(node)
+                super().flatten_mapping(node)
+
+        def _check_duplicate_keys(self, node: yaml.MappingNode) -> None:
             keys = set()
             for key_node, value_node in node.value:
                 if key_node.tag != yaml.resolver.BaseResolver.DEFAULT_SCALAR_TAG:
@@ -156,7 +168,6 @@ def get_yaml_loader() -> Any:
                         key_node.start_mark,
                     )
                 keys.add(key_node.value)
-            return super().construct_mapping(node, deep=deep)
 
     loader = OmegaConfLoader
     loader.add_implicit_resolver(
-- 
2.43.0


From c6f9bc1f70e522abd5496d087843144c1682f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 17/71] fix: reject duplicate yaml keys that are not strings

---
 omegaconf/_utils.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index fb00f02..eed6124 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -8,7 +8,17 @@ import types
 import warnings
 from enum import Enum
 from textwrap import dedent
-from typing import Any, Dict, List, Optional, Tuple, Type, Union, get_type_hints
+from typing import (
+    Any,
+    Dict,
+    Hashable,
+    List,
+    Optional,
+    Tuple,
+    Type,
+    Union,
+    get_type_hints,
+)
 
 import yaml
 
@@ -158,16 +168,25 @@ def get_yaml_loader() -> Any:
         def _check_duplicate_keys(self, node: yaml.MappingNode) -> None:
             keys = set()
             for key_node, value_node in node.value:
+                key = key_node.value
                 if key_node.tag != yaml.resolver.BaseResolver.DEFAULT_SCALAR_TAG:
-                    continue
-                if key_node.value in keys:
+                    if key_node.tag in (
+                        "tag:yaml.org,2002:merge",
+                        "tag:yaml.org,2002:value",
+                    ) or not isinstance(key_node, yaml.ScalarNode):
+                        continue
+                    key = self.construct_object(key_node)
+                    if not isinstance(key, Hashable):
+                        continue  # rejected when the mapping is constructed
+                    key = (key_node.tag, key)
+                if key in keys:
                     raise yaml.constructor.ConstructorError(
                         "while constructing a mapping",
                         node.start_mark,
                         f"found duplicate key {key_node.value}",
                         key_node.start_mark,
                     )
-                keys.add(key_node.value)
+                keys.add(key)
 
     loader = OmegaConfLoader
     loader.add_implicit_resolver(
-- 
2.43.0


From bf19d93b264507f0ce76fb0d62e4aae04ddcfcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 18/71] fix: container nodes holding different unresolvable
 interpolations are not equal

---
 omegaconf/basecontainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index fa31fda..6ec7026 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -703,7 +703,8 @@ class BaseContainer(Container, ABC):
 
         if v1_inter and v2_inter:
             if dv1 is None or dv2 is None:
-                return v1 == v2
+                # compare the interpolation strings
+                return bool(_get_value(v1) == _get_value(v2))
             else:
                 # both are not none, if both are containers compare as container
                 if isinstance(dv1, Container) and isinstance(dv2, Container):
-- 
2.43.0


From 2c0eb400daa3b747089b2a903b90e035e2f13871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 19/71] fix: a missing ListConfig is not equal to an empty one

---
 omegaconf/listconfig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 30b1add..43af290 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -656,6 +656,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         assert isinstance(l2, ListConfig)
         if len(l1) != len(l2):
             return False
+        if l1._is_missing() or l2._is_missing():
+            return l1._is_missing() is l2._is_missing()
         for i in range(len(l1)):
             if not BaseContainer._item_eq(l1, i, l2, i):
                 return False
-- 
2.43.0


From adff43ae3afdd6f85b86f1aef65b895b81eeace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 20/71] fix: missing_keys does not fail on interpolations that
 cannot be resolved

---
 omegaconf/omegaconf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index db65eca..3f45b09 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -820,6 +820,8 @@ class OmegaConf:
             for key in itr:
                 if OmegaConf.is_missing(_cfg, key):
                     missings.add(_cfg._get_full_key(key))
+                elif OmegaConf.is_interpolation(_cfg, key):
+                    continue  # what it refers to is reported under its own key
                 elif OmegaConf.is_config(_cfg[key]):
                     gather(_cfg[key])
 
-- 
2.43.0


From efc533d0a49098600f95bb1c50c20541c0a34019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 21/71] fix: merging '???' over an interpolation to a container
 keeps the interpolation

---
 omegaconf/basecontainer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 6ec7026..30f0a20 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -378,7 +378,11 @@ class BaseContainer(Container, ABC):
             ):
                 expand(dest_node)
 
-            if dest_node is not None and dest_node._is_interpolation():
+            if (
+                dest_node is not None
+                and dest_node._is_interpolation()
+                and (not src_node_missing or isinstance(src_node, Container))
+            ):
                 target_node = dest_node._maybe_dereference_node()
                 if isinstance(target_node, Container):
                     dest[key] = target_node
-- 
2.43.0


From c13585865427b5a7d0374d808517b0b6a729d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 22/71] fix: full_key of a failed select names the selected
 node for list nodes and relative keys

---
 omegaconf/basecontainer.py | 14 ++++++++++++--
 omegaconf/omegaconf.py     |  9 ++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 30f0a20..7b52b22 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -28,6 +28,7 @@ from ._utils import (
     is_structured_config,
     is_tuple_annotation,
     is_union_annotation,
+    split_key,
 )
 from .base import (
     Box,
@@ -804,10 +805,19 @@ class BaseContainer(Container, ABC):
             )
             if cur is None:
                 cur = self
-                full_key = prepand("", type(cur), None, key)
+                if isinstance(key, str) and key.startswith("["):
+                    full_key = key  # key path, e.g. given to OmegaConf.select()
+                elif isinstance(key, str) and isinstance(cur, ListConfig):
+                    head = split_key(key)[0]
+                    full_key = f"[{head}]{key[len(head) :]}"
+                else:
+                    full_key = prepand("", type(cur), None, key)
                 if cur._key() is not None:
                     full_key = prepand(
-                        full_key, type(cur._get_parent()), type(cur), cur._key()
+                        full_key,
+                        type(cur._get_parent()),
+                        ListConfig if full_key.startswith("[") else type(cur),
+                        cur._key(),
                     )
             else:
                 full_key = prepand("", type(cur._get_parent()), type(cur), cur._key())
diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 3f45b09..48d4355 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -56,6 +56,7 @@ from ._utils import (
 from .base import Box, Container, ListMergeMode, Node, SCMode, UnionNode
 from .basecontainer import BaseContainer
 from .errors import (
+    ConfigKeyError,
     MissingMandatoryValue,
     OmegaConfBaseException,
     UnsupportedInterpolationType,
@@ -692,7 +693,13 @@ class OmegaConf:
                 throw_on_missing=throw_on_missing,
             )
         except Exception as e:
-            format_and_raise(node=cfg, key=key, value=None, cause=e, msg=str(e))
+            node = cfg
+            if key.startswith("."):
+                try:
+                    node, key = cfg._resolve_key_and_root(key)
+                except ConfigKeyError:
+                    pass  # climbs above the root of the config
+            format_and_raise(node=node, key=key, value=None, cause=e, msg=str(e))
 
     @staticmethod
     def update(
-- 
2.43.0


From 1acbfbcfcc24bf60da00f537fe3cfe936c8d526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 23/71] fix: key paths accept keys with a newline in brackets

---
 omegaconf/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index eed6124..f9f424c 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -80,7 +80,7 @@ KEY_PATH_HEAD = re.compile(r"(\.)*[^.[]*")
 # be read as a choice between two syntaxes:
 #   - `.` followed by anything except `.` or `[` (ex: .b, .d)
 #   - `[` followed by anything then `]` (ex: [b], [c])
-KEY_PATH_OTHER = re.compile(r"\.([^.[]*)|\[(.*?)\]")
+KEY_PATH_OTHER = re.compile(r"\.([^.[]*)|\[(.*?)\]", re.DOTALL)
 
 
 # source: https://yaml.org/type/bool.html
-- 
2.43.0


From 42244db75b2addd76ee6a56f72847e4148f2bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 24/71] fix: a container node is not accepted at a typed simple
 or union place of a dict or list

---
 omegaconf/basecontainer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 7b52b22..3fa9714 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -29,6 +29,7 @@ from ._utils import (
     is_tuple_annotation,
     is_union_annotation,
     split_key,
+    type_str,
 )
 from .base import (
     Box,
@@ -665,6 +666,13 @@ class BaseContainer(Container, ABC):
         is_optional, ref_type = _resolve_optional(type_hint)
 
         try:
+            if isinstance(val, Container) and (
+                is_primitive_type_annotation(ref_type) or is_union_annotation(ref_type)
+            ):
+                raise ValidationError(
+                    "Value '$VALUE' of type '$VALUE_TYPE' is incompatible"
+                    f" with type hint '{type_str(type_hint)}'"
+                )
             wrapped = _maybe_wrap(
                 ref_type=ref_type,
                 key=key,
-- 
2.43.0


From f1a9df7eb2b7fb4f7d166b88bece4f6bb0b48f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 25/71] fix: an int too large for a float field is a validation
 error

---
 omegaconf/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/nodes.py b/omegaconf/nodes.py
index c3f7ba6..462d1f5 100644
--- a/omegaconf/nodes.py
+++ b/omegaconf/nodes.py
@@ -340,7 +340,7 @@ class FloatNode(ValueNode):
                 return float(value)
             else:
                 raise ValueError()
-        except ValueError:
+        except (ValueError, OverflowError):
             raise ValidationError(
                 "Value '$VALUE' of type '$VALUE_TYPE' could not be converted to Float"
             )
-- 
2.43.0


From b3bffcab26d23e91c22d0d45641d97b70ba103b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:04 +0000
Subject: [PATCH 26/71] fix: typed containers of structured items validate
 untyped or unrelated config nodes

---
 omegaconf/basecontainer.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 3fa9714..16d7b28 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -397,6 +397,16 @@ class BaseContainer(Container, ABC):
                     et, parent=dest, ref_type=et, is_optional=is_optional
                 )
                 dest_node = dest._get_node(key)
+            elif (
+                dest_node is None
+                and is_container_annotation(et)
+                and isinstance(src_node, BaseContainer)
+                and isinstance(src_node, DictConfig) is is_dict_annotation(et)
+                and not _is_special(src_node)
+            ):
+                # merging into a new typed container, which may have structured items.
+                dest[key] = {} if is_dict_annotation(et) else []
+                dest_node = dest._get_node(key)
 
             if dest_node is not None:
                 if isinstance(dest_node, BaseContainer):
@@ -487,6 +497,21 @@ class BaseContainer(Container, ABC):
                     if isinstance(item, DictConfig):
                         item = OmegaConf.merge(prototype, item)
                     temp_target.append(item)
+            elif is_container_annotation(et):
+                is_dict = is_dict_annotation(et)
+                flags = {"allow_objects": dest._get_flag("allow_objects")}
+                for item in src._iter_ex(resolve=False):
+                    if (
+                        isinstance(item, BaseContainer)
+                        and isinstance(item, DictConfig) is is_dict
+                        and not _is_special(item)
+                    ):
+                        nested = ListConfig(
+                            [{} if is_dict else []], element_type=et, flags=flags
+                        )
+                        nested[0].merge_with(item)
+                        item = nested[0]
+                    temp_target.append(item)
             else:
                 for item in src._iter_ex(resolve=False):
                     temp_target.append(item)
@@ -928,7 +953,7 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
 
 def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
     """Error if node's type, content and metadata are not compatible with type_hint."""
-    from omegaconf import DictConfig, ListConfig, ValueNode
+    from omegaconf import DictConfig, ListConfig, OmegaConf, ValueNode
 
     is_optional, ref_type = _resolve_optional(type_hint)
 
@@ -953,7 +978,12 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
                     + f" is incompatible with type hint '{ref_type.__name__}'"
                 )
         elif is_structured_config(ref_type) and isinstance(node, DictConfig):
-            return
+            object_type = OmegaConf.get_type(node)
+            if object_type is None or not issubclass(object_type, ref_type):
+                raise ValidationError(
+                    f"Invalid type assigned: {type_str(object_type)} is not a"
+                    f" subclass of {type_str(ref_type)}. value: {node}"
+                )
         elif is_dict_annotation(ref_type) and isinstance(node, DictConfig):
             return
         elif is_list_annotation(ref_type) and isinstance(node, ListConfig):
-- 
2.43.0


From 2c5a82920a7a22111413cd7555571dd90025f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 27/71] fix: attrs classes with factory defaults can be made
 into configs

---
 omegaconf/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index f9f424c..d49685a 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -383,6 +383,8 @@ def get_attr_data(obj: Any, allow_objects: Optional[bool] = None) -> Dict[str, A
             value = attrib.default
             if value == attr.NOTHING:
                 value = MISSING
+            elif isinstance(value, attr.Factory) and not value.takes_self:  # type: ignore
+                value = value.factory()
         if is_union_annotation(type_) and not is_supported_union_annotation(type_):
             e = ConfigValueError(
                 f"Unions of containers are not supported:\n{name}: {type_str(type_)}"  # noqa: E231
-- 
2.43.0


From 4c81698ec496f3a6b695a5d35c376527d3bee41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 28/71] fix: a typed value node assigned to a typed place is
 validated by the declared type

---
 omegaconf/basecontainer.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 16d7b28..8d0f265 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -648,7 +648,22 @@ class BaseContainer(Container, ABC):
             _deep_update_type_hint(node=v, type_hint=self._metadata.element_type)
             self.__dict__["_content"][value_key] = v
 
-        if input_is_typed_vnode and not is_union_annotation(target_ref_type):
+        if (
+            input_is_typed_vnode
+            and target_node_ref is not None
+            and target_node_ref._has_ref_type()
+            and is_structured_config(self._metadata.object_type)
+        ):
+            # the declared type of the field decides, not the type of the node.
+            target_node_ref._set_value(_get_value(value))
+        elif (
+            input_is_typed_vnode
+            and target_ref_type is not Any
+            and (_is_special(value) or type(_get_value(value)) is bool)
+        ):
+            # may be legal for the type of the node, but not for the element type.
+            self._wrap_value_and_set(key, _get_value(value), target_type_hint)
+        elif input_is_typed_vnode and not is_union_annotation(target_ref_type):
             assign(key, value)
         else:
             # input is not a ValueNode, can be primitive or box
-- 
2.43.0


From ea3010d9e637cf1a18ad18fa0a90875101e04929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 29/71] fix: merging a missing structured node keeps the
 subclass held by the destination

---
 omegaconf/basecontainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 8d0f265..6b4e760 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -346,6 +346,10 @@ class BaseContainer(Container, ABC):
             src._is_missing()
             and not dest._is_missing()
             and is_structured_config(src_ref_type)
+            and (
+                not dest._is_typed()
+                or issubclass(src_ref_type, dest._metadata.object_type)  # type: ignore
+            )
         ):
             # Replace `src` with a prototype of its corresponding structured config
             # whose fields are all missing (to avoid overwriting fields in `dest`).
-- 
2.43.0


From de8a8d5b353380b42928c546db8db19e1fad2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 30/71] fix: merging with EXTEND modes into a missing or None
 list

---
 omegaconf/basecontainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 6b4e760..11f4fec 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -520,7 +520,10 @@ class BaseContainer(Container, ABC):
                 for item in src._iter_ex(resolve=False):
                     temp_target.append(item)
 
-            if list_merge_mode == ListMergeMode.EXTEND:
+            if _is_special(dest):
+                # there are no items to extend
+                dest.__dict__["_content"] = temp_target.__dict__["_content"]
+            elif list_merge_mode == ListMergeMode.EXTEND:
                 dest.__dict__["_content"].extend(temp_target.__dict__["_content"])
             elif list_merge_mode == ListMergeMode.EXTEND_UNIQUE:
                 for entry in temp_target.__dict__["_content"]:
-- 
2.43.0


From 2076ffa4fd4d58769a2dcc083ebf45fa3b0929e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:32 +0000
Subject: [PATCH 31/71] fix: simple values of nested typed containers get nodes
 of their declared type

---
 omegaconf/basecontainer.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 11f4fec..b201ef3 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -964,10 +964,20 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
     """Get node[key] and ensure it is compatible with value_type_hint, mutating if necessary."""
     subnode = node._get_node(key)
     assert isinstance(subnode, Node)
-    if _is_special(subnode):
-        # Ensure special values are wrapped in a Node subclass that
+    _, ref_type = _resolve_optional(value_type_hint)
+    if (
+        _is_special(subnode)
+        or is_union_annotation(ref_type)
+        or (
+            is_primitive_type_annotation(ref_type)
+            and subnode._metadata.ref_type != ref_type
+        )
+    ):
+        # Ensure special and simple values are wrapped in a Node subclass that
         # is compatible with the type hint.
-        node._wrap_value_and_set(key, subnode._value(), value_type_hint)
+        if not _is_special(subnode) and not is_union_annotation(ref_type):
+            _shallow_validate_type_hint(subnode, value_type_hint)
+        node._wrap_value_and_set(key, _get_value(subnode), value_type_hint)
         subnode = node._get_node(key)
         assert isinstance(subnode, Node)
     _deep_update_type_hint(subnode, value_type_hint)
@@ -999,6 +1009,8 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
                     f"Value {value!r} ({type(value).__name__})"
                     + f" is incompatible with type hint '{ref_type.__name__}'"
                 )
+        elif is_union_annotation(ref_type) and isinstance(node, UnionNode):
+            return
         elif is_structured_config(ref_type) and isinstance(node, DictConfig):
             object_type = OmegaConf.get_type(node)
             if object_type is None or not issubclass(object_type, ref_type):
-- 
2.43.0


From 6151502916ba43d61b9499324e07c9834be0260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:36 +0000
Subject: [PATCH 32/71] fix: unsafe_merge of a structured config with a union
 field

---
 omegaconf/basecontainer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index b201ef3..803a8ad 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -603,7 +603,11 @@ class BaseContainer(Container, ABC):
 
         if isinstance(value, Node):
             do_deepcopy = not self._get_flag("no_deepcopy_set_nodes")
-            if not do_deepcopy and isinstance(value, Box):
+            if (
+                not do_deepcopy
+                and isinstance(value, Box)
+                and (isinstance(value, Container) or value._get_parent() is not None)
+            ):
                 # if value is from the same config, perform a deepcopy no matter what.
                 if self._get_root() is value._get_root():
                     do_deepcopy = True
-- 
2.43.0


From 044401d9d006bc7cb52bf90fe11492aa41ae72a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 33/71] fix: merging a list with duplicates into a missing list
 with EXTEND_UNIQUE

---
 omegaconf/basecontainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 803a8ad..f4c8086 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -521,9 +521,9 @@ class BaseContainer(Container, ABC):
                     temp_target.append(item)
 
             if _is_special(dest):
-                # there are no items to extend
-                dest.__dict__["_content"] = temp_target.__dict__["_content"]
-            elif list_merge_mode == ListMergeMode.EXTEND:
+                dest.__dict__["_content"] = []  # there are no items to extend
+
+            if list_merge_mode == ListMergeMode.EXTEND:
                 dest.__dict__["_content"].extend(temp_target.__dict__["_content"])
             elif list_merge_mode == ListMergeMode.EXTEND_UNIQUE:
                 for entry in temp_target.__dict__["_content"]:
-- 
2.43.0


From 97336c0a0b644c48ee63f20035a16191fa03f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 34/71] fix: merging an interpolation over a None container
 does not resolve it in the source

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index f4c8086..d3e4b3f 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -380,7 +380,9 @@ class BaseContainer(Container, ABC):
                 isinstance(dest_node, Container)
                 and dest_node._is_none()
                 and not src_node_missing
-                and not _is_none(src_node, resolve=True)
+                and not _is_none(
+                    src_node, resolve=True, throw_on_resolution_failure=False
+                )
             ):
                 expand(dest_node)
 
-- 
2.43.0


From 2e4040911663dee7d15ab1df8a88c871bbd6e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 35/71] fix: do not leave a dict with keys that contradict its
 key type after a failed merge

---
 omegaconf/basecontainer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index d3e4b3f..af14011 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -942,6 +942,17 @@ def _deep_update_type_hint(node: Node, type_hint: Any) -> None:
     _shallow_validate_type_hint(node, type_hint)
 
     new_is_optional, new_ref_type = _resolve_optional(type_hint)
+    if is_dict_annotation(new_ref_type) and isinstance(node, DictConfig):
+        # check the keys first: a node whose keys contradict its key type is unusable
+        new_key_type, _ = get_dict_key_value_types(new_ref_type)
+        if not _is_special(node):
+            for key in node:
+                if new_key_type is not Any and not isinstance(key, new_key_type):
+                    raise KeyValidationError(
+                        f"Key {key!r} ({type(key).__name__}) is incompatible"
+                        + f" with key type hint '{new_key_type.__name__}'"
+                    )
+
     node._metadata.ref_type = new_ref_type
     node._metadata.optional = new_is_optional
 
@@ -958,11 +969,6 @@ def _deep_update_type_hint(node: Node, type_hint: Any) -> None:
         node._metadata.element_type = new_element_type
         if not _is_special(node):
             for key in node:
-                if new_key_type is not Any and not isinstance(key, new_key_type):
-                    raise KeyValidationError(
-                        f"Key {key!r} ({type(key).__name__}) is incompatible"
-                        + f" with key type hint '{new_key_type.__name__}'"
-                    )
                 _deep_update_subnode(node, key, new_element_type)
 
 
-- 
2.43.0


From 90540e265ad64f0b86a88f79c09a99c2015cc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 36/71] fix: a container made from another node does not share
 its flags

---
 omegaconf/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 1af68f3..4d6cd0c 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -64,8 +64,8 @@ class Metadata:
     resolver_cache: Dict[str, Any] = field(default_factory=lambda: defaultdict(dict))
 
     def __post_init__(self) -> None:
-        if self.flags is None:
-            self.flags = {}
+        # never share the flags of another node
+        self.flags = {} if self.flags is None else dict(self.flags)
 
     @property
     def type_hint(self) -> Union[Type[Any], Any]:
@@ -94,8 +94,8 @@ class ContainerMetadata(Metadata):
                     f"Unsupported value type: '{type_str(self.element_type, include_module_name=True)}'"
                 )
 
-        if self.flags is None:
-            self.flags = {}
+        # never share the flags of another node
+        self.flags = {} if self.flags is None else dict(self.flags)
 
 
 class Node(ABC):
-- 
2.43.0


From 2fa7515714ae6f99418971a0b848ee225320f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 37/71] fix: merging into a read-only config does not create
 its empty structured fields

---
 omegaconf/basecontainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index af14011..1e67e5f 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -326,6 +326,8 @@ class BaseContainer(Container, ABC):
         dest._validate_merge(value=src)
 
         def expand(node: Container) -> None:
+            if node._get_flag("readonly"):
+                raise ReadonlyConfigError("Cannot change read-only config container")
             rt = node._metadata.ref_type
             val: Any
             if rt is not Any:
-- 
2.43.0


From d2f1c6528b6edb9fd8c5f47f7f76d1d8d08e0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 38/71] fix: merging a structured config does not add keys to
 an untyped struct node

---
 omegaconf/basecontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 1e67e5f..49eb6f5 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -450,7 +450,7 @@ class BaseContainer(Container, ABC):
             else:
                 from omegaconf import open_dict
 
-                if is_structured_config(src_type):
+                if is_structured_config(src_type) and dest._is_typed():
                     # verified to be compatible above in _validate_merge
                     with open_dict(dest):
                         dest[key] = src._get_node(key)
-- 
2.43.0


From 6e5592f7802e879a806789af83a66d357de646fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 39/71] fix: reject too deeply nested expressions with
 GrammarParseError

---
 omegaconf/grammar_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/grammar_parser.py b/omegaconf/grammar_parser.py
index 423a1ae..f31437d 100644
--- a/omegaconf/grammar_parser.py
+++ b/omegaconf/grammar_parser.py
@@ -144,5 +144,7 @@ def parse(
             # no mode has been pushed. We convert it into an `GrammarParseError`
             # to facilitate exception handling from the caller.
             raise GrammarParseError("Empty Stack")
+        elif isinstance(exc, RecursionError):
+            raise GrammarParseError("Expression is too deeply nested") from exc
         else:
             raise
-- 
2.43.0


From 18ac4648639adbb9601c8fb75addb6c82f6b7b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 40/71] fix: strings that are not in the grammar are rejected
 when set, not when read

---
 omegaconf/grammar_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omegaconf/grammar_parser.py b/omegaconf/grammar_parser.py
index f31437d..c94c036 100644
--- a/omegaconf/grammar_parser.py
+++ b/omegaconf/grammar_parser.py
@@ -24,13 +24,14 @@ _config_key = r"[$\w]+"  # foo, $0, $bar, $foo_$bar123$
 _key_maybe_brackets = f"{_config_key}|\\[{_config_key}\\]"  # foo, [foo], [$bar]
 _node_access = f"\\.{_key_maybe_brackets}"  # .foo, [foo], [$bar]
 _node_path = f"(\\.)*({_key_maybe_brackets})({_node_access})*"  # [foo].bar, .foo[bar]
-_node_inter = f"\\${{\\s*{_node_path}\\s*}}"  # node interpolation ${foo.bar}
+_ws = "[ \t]*"  # whitespaces of the grammar (no newline)
+_node_inter = f"\\${{{_ws}{_node_path}{_ws}}}"  # node interpolation ${foo.bar}
 _id = "[a-zA-Z_][\\w\\-]*"  # foo, foo_bar, foo-bar, abc123
-_resolver_name = f"({_id}(\\.{_id})*)?"  # foo, ns.bar3, ns_1.ns_2.b0z
+_resolver_name = f"{_id}(\\.{_id})*"  # foo, ns.bar3, ns_1.ns_2.b0z
 _arg = r"[a-zA-Z_0-9/\-\+.$%*@?|]+"  # string representing a resolver argument
-_args = f"{_arg}(\\s*,\\s*{_arg})*"  # list of resolver arguments  # noqa: E231
+_args = f"{_arg}({_ws},{_ws}{_arg})*"  # list of resolver arguments  # noqa: E231
 _resolver_inter = (
-    f"\\${{\\s*{_resolver_name}\\s*:\\s*{_args}?\\s*}}"  # ${foo:bar}  # noqa: E231
+    f"\\${{{_ws}{_resolver_name}{_ws}:{_ws}{_args}?{_ws}}}"  # ${foo:bar}  # noqa: E231
 )
 _inter = f"({_node_inter}|{_resolver_inter})"  # any kind of interpolation
 _outer = "([^$]|\\$(?!{))+"  # any character except $ (unless not followed by {)
-- 
2.43.0


From e224da380661c52bf0ecbdfa94f013091924e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 41/71] fix: an invalid interpolation set on a union field is
 rejected when set

---
 omegaconf/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 4d6cd0c..a55dcf7 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -893,6 +893,8 @@ class UnionNode(Box):
         value = _get_value(value)
         if _is_special(value):
             assert isinstance(value, (str, NoneType))
+            # raises on an invalid interpolation
+            get_value_kind(value, strict_interpolation_validation=True)
             if value is None:
                 if not self._is_optional():
                     raise ValidationError(
-- 
2.43.0


From 1e609ccdc0a404bedf224dbfdc5024cf3eab1e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 42/71] fix: OmegaConf.resolve of a sub-config does not change
 the targets of its interpolations

---
 omegaconf/_impl.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index e45ea7e..fb256b1 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Any
 
 from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNode
@@ -23,17 +24,22 @@ def _set_resolved_value(node: Node, value: Any) -> None:
     node._set_value(value)
 
 
-def _resolve_container_value(cfg: Container, key: Any) -> None:
+def _resolve_container_value(cfg: Container, key: Any, source: Container) -> None:
     node = cfg._get_child(key)
-    assert isinstance(node, Node)
-    if node._is_interpolation():
+    source_node = source._get_child(key)
+    assert isinstance(node, Node) and isinstance(source_node, Node)
+    if source_node._is_interpolation():
         try:
-            resolved = node._dereference_node()
+            resolved = source_node._dereference_node()
         except InterpolationToMissingValueError:
             _set_resolved_value(node, MISSING)
         else:
             if isinstance(resolved, Container):
-                _resolve(resolved)
+                # resolve a copy: the target of the interpolation may be outside
+                # of the config being resolved
+                target = resolved
+                resolved = copy.deepcopy(target)
+                _resolve(resolved, target)
             if isinstance(resolved, InterpolationResultNode):
                 resolved_value = _get_value(resolved)
                 if is_primitive_container(resolved_value) or is_structured_config(
@@ -45,11 +51,19 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
             else:
                 _set_resolved_value(node, _get_value(resolved))
     else:
-        _resolve(node)
+        _resolve(node, source_node)
 
 
-def _resolve(cfg: Node) -> Node:
+def _resolve(cfg: Node, source: Any = None) -> Node:
+    """
+    Resolves cfg in-place.
+
+    :param source: The config that cfg is a copy of, if it is one: interpolations
+        are evaluated there, so that their meaning does not depend on the copy.
+    """
     assert isinstance(cfg, Node)
+    if source is None:
+        source = cfg
     if cfg._is_interpolation():
         try:
             resolved = cfg._dereference_node()
@@ -60,11 +74,11 @@ def _resolve(cfg: Node) -> Node:
 
     if isinstance(cfg, DictConfig):
         for k in cfg.keys():
-            _resolve_container_value(cfg, k)
+            _resolve_container_value(cfg, k, source)
 
     elif isinstance(cfg, ListConfig):
         for i in range(len(cfg)):
-            _resolve_container_value(cfg, i)
+            _resolve_container_value(cfg, i, source)
 
     return cfg
 
-- 
2.43.0


From f2740a1b4527ba6f34d56040dfd905746d648465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 43/71] fix: a resolver cache set from a plain dict works for
 every resolver

---
 omegaconf/omegaconf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 48d4355..eb79282 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -504,11 +504,11 @@ class OmegaConf:
 
     @staticmethod
     def set_cache(conf: BaseContainer, cache: Dict[str, Any]) -> None:
-        conf._metadata.resolver_cache = copy.deepcopy(cache)
+        conf._metadata.resolver_cache = defaultdict(dict, copy.deepcopy(cache))
 
     @staticmethod
     def clear_cache(conf: BaseContainer) -> None:
-        OmegaConf.set_cache(conf, defaultdict(dict, {}))
+        OmegaConf.set_cache(conf, {})
 
     @staticmethod
     def copy_cache(from_config: BaseContainer, to_config: BaseContainer) -> None:
-- 
2.43.0


From 89035236b8afab28f7f7a02c68ea2e255c23db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 44/71] fix: merging a typed dict over a structured config does
 not change the types of its fields

---
 omegaconf/basecontainer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 49eb6f5..6f498c6 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -928,7 +928,11 @@ def _update_types(node: Node, ref_type: Any, object_type: Optional[type]) -> Non
     if object_type is not None and not is_primitive_dict(object_type):
         node._metadata.object_type = object_type
 
-    if node._metadata.ref_type is Any:
+    if node._metadata.ref_type is Any and not (
+        # the fields of a structured config keep their own types
+        is_dict_annotation(ref_type)
+        and is_structured_config(node._metadata.object_type)
+    ):
         _deep_update_type_hint(node, ref_type)
 
 
-- 
2.43.0


From fcf531f6e83459d3682b0b2e351a5c24e9ce2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 45/71] fix: oc.deprecated of a missing value raises instead of
 returning '???'

---
 omegaconf/resolvers/oc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/resolvers/oc/__init__.py b/omegaconf/resolvers/oc/__init__.py
index c177ab4..3141af4 100644
--- a/omegaconf/resolvers/oc/__init__.py
+++ b/omegaconf/resolvers/oc/__init__.py
@@ -78,7 +78,7 @@ def deprecated(
         )
 
     full_key = _node_._get_full_key(key=None)
-    target_node = select_node(_parent_, key, absolute_key=True)
+    target_node = select_node(_parent_, key, absolute_key=True, throw_on_missing=True)
     if target_node is None:
         raise ConfigKeyError(
             f"In oc.deprecated resolver at '{full_key}': Key not found: '{key}'"
-- 
2.43.0


From 763d31ab62c061284afc6e0260c22708c821f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 46/71] fix: accessing a key of a missing or None DictConfig
 does not raise an internal AttributeError

---
 omegaconf/dictconfig.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 11b2e70..926ace1 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -430,7 +430,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         `default_value` (defaulting to `None`)."""
         try:
             return self._get_impl(key=key, default_value=default_value)
-        except KeyValidationError as e:
+        except (KeyValidationError, TypeError, MissingMandatoryValue) as e:
             self._format_and_raise(key=key, value=None, cause=e)
 
     def _get_impl(
@@ -469,6 +469,15 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
                 else:
                     return None
 
+        if self._is_none() or self._is_missing():
+            if not validate_access:
+                return None
+            if self._is_none():
+                raise TypeError(
+                    "Cannot get_node from a DictConfig object representing None"
+                )
+            raise MissingMandatoryValue("Cannot get_node from a missing DictConfig")
+
         if validate_access:
             self._validate_get(key)
 
@@ -534,6 +543,9 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         except KeyValidationError:
             return False
 
+        if self._is_none() or self._is_missing():
+            return False
+
         try:
             node = self._get_child(key)
             assert node is None or isinstance(node, Node)
-- 
2.43.0


From 8d53e5208ad128256ae258ffac9d46f2a8d46f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 47/71] fix: merging into a None DictConfig of a structured
 type

---
 omegaconf/basecontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 6f498c6..3ef62e1 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -361,7 +361,7 @@ class BaseContainer(Container, ABC):
                 ref_type=src_ref_type, object_type=src_type
             )
 
-        if (dest._is_interpolation() or dest._is_missing()) and not src._is_missing():
+        if _is_special(dest) and not src._is_missing():
             expand(dest)
 
         src_items = list(src) if not src._is_missing() else []
-- 
2.43.0


From 1fced2c2f468c81e110cc4e06bf5b482bc968189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 48/71] fix: masked_copy of a config holding objects keeps them

---
 omegaconf/omegaconf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index eb79282..04ae322 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -551,7 +551,8 @@ class OmegaConf:
         if isinstance(keys, str):
             keys = [keys]
         content = {key: value for key, value in conf.items_ex(resolve=False, keys=keys)}
-        return DictConfig(content=content)
+        flags = {"allow_objects": True} if conf._get_flag("allow_objects") else None
+        return DictConfig(content=content, flags=flags)
 
     @staticmethod
     def to_container(
-- 
2.43.0


From e2b41e020ae827a1f1f7b6ef1bf93a490e6b7995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 49/71] fix: appending a config to a list it holds does not
 raise an internal AttributeError

---
 omegaconf/listconfig.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 43af290..5f74af0 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -133,6 +133,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         if isinstance(src_content, list):
             content_copy: List[Optional[Node]] = []
             for v in src_content:
+                if v is None:
+                    # place holder of an item being added, which holds this list
+                    continue
                 old_parent = v.__dict__["_parent"]
                 try:
                     v.__dict__["_parent"] = None
-- 
2.43.0


From 342f8ae762b28ab3bbc18b4d416da95704ce1073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 50/71] fix: extending a ListConfig with a non-list raises a
 type error, not an AssertionError

---
 omegaconf/listconfig.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 5f74af0..25383a5 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -329,7 +329,14 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             assert False
 
     def extend(self, lst: Iterable[Any]) -> None:
-        assert isinstance(lst, (tuple, list, ListConfig))
+        if not isinstance(lst, (tuple, list, ListConfig)):
+            self._format_and_raise(
+                key=None,
+                value=lst,
+                cause=TypeError(
+                    f"Cannot extend a ListConfig with a value of type '{type(lst).__name__}'"
+                ),
+            )
         # iterate over a copy: lst may be self
         for x in list(lst):
             self.append(x)
@@ -560,6 +567,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             assert False
 
     def __add__(self, other: Union[List[Any], "ListConfig"]) -> "ListConfig":
+        if not isinstance(other, (tuple, list, ListConfig)):
+            return NotImplemented
         # res is sharing this list's parent to allow interpolation to work as expected
         res = ListConfig(parent=self._get_parent(), content=[])
         res.extend(self)
@@ -567,6 +576,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         return res
 
     def __radd__(self, other: Union[List[Any], "ListConfig"]) -> "ListConfig":
+        if not isinstance(other, (tuple, list, ListConfig)):
+            return NotImplemented
         # res is sharing this list's parent to allow interpolation to work as expected
         res = ListConfig(parent=self._get_parent(), content=[])
         res.extend(other)
-- 
2.43.0


From d521d37c896efd6288d0daa0aa84366d020bd3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 51/71] fix: failing deletions raise OmegaConf errors

---
 omegaconf/dictconfig.py | 16 ++++++++++++++++
 omegaconf/listconfig.py | 11 ++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 926ace1..b36f24a 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -387,10 +387,18 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
                 ),
             )
         try:
+            if self._is_none():
+                raise TypeError(
+                    "Cannot delete from a DictConfig object representing None"
+                )
+            if self._is_missing():
+                raise MissingMandatoryValue("Cannot delete from a missing DictConfig")
             del self.__dict__["_content"][key]
         except KeyError:
             msg = "Attribute not found: '$KEY'"
             self._format_and_raise(key=key, value=None, cause=ConfigAttributeError(msg))
+        except (TypeError, MissingMandatoryValue) as e:
+            self._format_and_raise(key=key, value=None, cause=e)
 
     def __delitem__(self, key: DictKeyType) -> None:
         key = self._validate_and_normalize_key(key)
@@ -420,10 +428,18 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
             )
 
         try:
+            if self._is_none():
+                raise TypeError(
+                    "Cannot delete from a DictConfig object representing None"
+                )
+            if self._is_missing():
+                raise MissingMandatoryValue("Cannot delete from a missing DictConfig")
             del self.__dict__["_content"][key]
         except KeyError:
             msg = "Key not found: '$KEY'"
             self._format_and_raise(key=key, value=None, cause=ConfigKeyError(msg))
+        except (TypeError, MissingMandatoryValue) as e:
+            self._format_and_raise(key=key, value=None, cause=e)
 
     def get(self, key: DictKeyType, default_value: Any = None) -> Any:
         """Return the value for `key` if `key` is in the dictionary, else
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 25383a5..9160f4c 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -353,7 +353,16 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                     "Cannot delete item from read-only ListConfig"
                 ),
             )
-        del self.__dict__["_content"][key]
+        try:
+            if self._is_none():
+                raise TypeError(
+                    "Cannot delete from a ListConfig object representing None"
+                )
+            if self._is_missing():
+                raise MissingMandatoryValue("Cannot delete from a missing ListConfig")
+            del self.__dict__["_content"][key]
+        except Exception as e:
+            self._format_and_raise(key=key, value=None, cause=e)
         self._update_keys()
 
     def clear(self) -> None:
-- 
2.43.0


From 048c88adb5d23b0324ce6cf5094236d84febba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 52/71] fix: appending to a missing or None ListConfig raises
 an OmegaConf error

---
 omegaconf/listconfig.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 9160f4c..8855a02 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -267,6 +267,20 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._format_and_raise(key=index, value=value, cause=e)
 
     def append(self, item: Any) -> None:
+        if self._is_none():
+            self._format_and_raise(
+                key=None,
+                value=item,
+                cause=TypeError(
+                    "Cannot append to a ListConfig object representing None"
+                ),
+            )
+        if self._is_missing():
+            self._format_and_raise(
+                key=None,
+                value=item,
+                cause=MissingMandatoryValue("Cannot append to a missing ListConfig"),
+            )
         content = self.__dict__["_content"]
         index = len(content)
         content.append(None)
-- 
2.43.0


From d5b7a1e9de413a9be9c68b46458ef240a326d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 53/71] fix: ListConfig.index accepts the bounds that
 list.index accepts

---
 omegaconf/listconfig.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 8855a02..b5bea38 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -385,12 +385,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
     def index(
         self, x: Any, start: Optional[int] = None, end: Optional[int] = None
     ) -> int:
-        if start is None:
-            start = 0
-        if end is None:
-            end = len(self)
-        assert start >= 0
-        assert end <= len(self)
+        # same bounds as list.index()
+        start, end, _ = slice(start, end).indices(len(self))
         found_idx = -1
         for idx in range(start, end):
             item = self[idx]
-- 
2.43.0


From b4b5f4b255ee921e10297d54a5e091b49abcd4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 54/71] fix: value errors of configs are ConfigValueError

---
 omegaconf/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index d49685a..d587def 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -925,6 +925,8 @@ def format_and_raise(
         exception_type = ConfigTypeError
     elif exception_type == IndexError:
         exception_type = ConfigIndexError
+    elif exception_type == ValueError:
+        exception_type = ConfigValueError
 
     ex = exception_type(f"{message}")
     if issubclass(exception_type, OmegaConfBaseException):
-- 
2.43.0


From f79e87946e4ce83ecca02bce30f16bf5acac53ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 55/71] fix: dir() of a config with keys of several types

---
 omegaconf/dictconfig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index b36f24a..0815894 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -319,7 +319,8 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
     def __dir__(self) -> Iterable[str]:
         if self._is_missing() or self._is_none():
             return []
-        return self.__dict__["_content"].keys()  # type: ignore
+        # attribute names only: dir() sorts them, other keys may not be comparable
+        return [k for k in self.__dict__["_content"] if isinstance(k, str)]
 
     def __setattr__(self, key: str, value: Any) -> None:
         """
-- 
2.43.0


From 2d47f5a3755b05c50bad41e4ef127ec726de18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 56/71] fix: errors of missing and None containers carry the
 key

---
 omegaconf/dictconfig.py |  6 +++++-
 omegaconf/listconfig.py | 19 +++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 0815894..b56b0ac 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -608,7 +608,11 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
                 cause=TypeError("Cannot iterate a DictConfig object representing None"),
             )
         if self._is_missing():
-            raise MissingMandatoryValue("Cannot iterate a missing DictConfig")
+            self._format_and_raise(
+                key=None,
+                value=None,
+                cause=MissingMandatoryValue("Cannot iterate a missing DictConfig"),
+            )
 
         for key in self.keys():
             if resolve:
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index b5bea38..662fea3 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -608,14 +608,17 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         return self
 
     def __contains__(self, item: Any) -> bool:
-        if self._is_none():
-            raise TypeError(
-                "Cannot check if an item is in a ListConfig object representing None"
-            )
-        if self._is_missing():
-            raise MissingMandatoryValue(
-                "Cannot check if an item is in missing ListConfig"
-            )
+        try:
+            if self._is_none():
+                raise TypeError(
+                    "Cannot check if an item is in a ListConfig object representing None"
+                )
+            if self._is_missing():
+                raise MissingMandatoryValue(
+                    "Cannot check if an item is in missing ListConfig"
+                )
+        except (TypeError, MissingMandatoryValue) as e:
+            self._format_and_raise(key=None, value=None, cause=e)
 
         lst = self.__dict__["_content"]
         for x in lst:
-- 
2.43.0


From 38958330f28f1b3eebf69fa26be7a4ac4e37abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 57/71] fix: OmegaConf.update through a None container does not
 raise an AssertionError

---
 omegaconf/omegaconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 04ae322..a4d5ad7 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -729,7 +729,7 @@ class OmegaConf:
             k = split[i]
             # if next_root is a primitive (string, int etc) replace it with an empty map
             next_root, key_ = _select_one(root, k, throw_on_missing=False)
-            if not isinstance(next_root, Container):
+            if not isinstance(next_root, Container) or next_root._is_none():
                 if force_add:
                     with flag_override(root, "struct", False):
                         root[key_] = {}
-- 
2.43.0


From 857c9c67e44eb5e466d4cd69111b3ddd4fcc889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 58/71] fix: OmegaConf.update with a wrong list index raises an
 OmegaConf error

---
 omegaconf/omegaconf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index a4d5ad7..89a936a 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -728,7 +728,10 @@ class OmegaConf:
         for i in range(len(split) - 1):
             k = split[i]
             # if next_root is a primitive (string, int etc) replace it with an empty map
-            next_root, key_ = _select_one(root, k, throw_on_missing=False)
+            try:
+                next_root, key_ = _select_one(root, k, throw_on_missing=False)
+            except TypeError as e:
+                root._format_and_raise(key=k, value=value, cause=e)
             if not isinstance(next_root, Container) or next_root._is_none():
                 if force_add:
                     with flag_override(root, "struct", False):
@@ -745,7 +748,10 @@ class OmegaConf:
 
         last_key: Union[str, int] = last
         if isinstance(root, ListConfig):
-            last_key = int(last)
+            try:
+                last_key = int(last)
+            except ValueError as e:
+                root._format_and_raise(key=last, value=value, cause=e)
 
         ctx = flag_override(root, "struct", False) if force_add else nullcontext()
         with ctx:
-- 
2.43.0


From b4846c6fd790a4cd40c08c6bfc4b1a3afd72c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 59/71] fix: errors of DictConfig.get carry the key

---
 omegaconf/dictconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index b56b0ac..3a404d1 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -447,7 +447,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         `default_value` (defaulting to `None`)."""
         try:
             return self._get_impl(key=key, default_value=default_value)
-        except (KeyValidationError, TypeError, MissingMandatoryValue) as e:
+        except Exception as e:
             self._format_and_raise(key=key, value=None, cause=e)
 
     def _get_impl(
-- 
2.43.0


From f80a0a6da263f24911f79b30e9db66c420124dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 60/71] fix: OmegaConf.update through an interpolation to a
 value does not raise an AssertionError

---
 omegaconf/omegaconf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 89a936a..5fc03e1 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -732,6 +732,10 @@ class OmegaConf:
                 next_root, key_ = _select_one(root, k, throw_on_missing=False)
             except TypeError as e:
                 root._format_and_raise(key=k, value=value, cause=e)
+            if isinstance(next_root, Container) and next_root._is_interpolation():
+                target = next_root._maybe_dereference_node()
+                if target is not None:  # otherwise root[key_] raises below
+                    next_root = target
             if not isinstance(next_root, Container) or next_root._is_none():
                 if force_add:
                     with flag_override(root, "struct", False):
-- 
2.43.0


From 29f73c804ca82e7ff7e0741d827d8d006d7e6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 61/71] fix: to_object of a structured config with a non-string
 key does not raise an AssertionError

---
 omegaconf/dictconfig.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 3a404d1..2a05297 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -764,6 +764,14 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         init_field_items: Dict[str, Any] = {}
         non_init_field_items: Dict[str, Any] = {}
         for k in self.keys():
+            if not isinstance(k, str):
+                self._format_and_raise(
+                    key=k,
+                    value=None,
+                    cause=ConfigTypeError(
+                        "Could not create instance of `$OBJECT_TYPE`: key `$KEY` is not a string"
+                    ),
+                )
             assert isinstance(k, str)
             node = self._get_child(k)
             assert isinstance(node, Node)
-- 
2.43.0


From 6a87dc14f335ea8608f9932c9582441eaca3e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 62/71] fix: debugger view resolves items of interpolations to
 lists and dicts

---
 pydevd_plugins/extensions/pydevd_plugin_omegaconf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydevd_plugins/extensions/pydevd_plugin_omegaconf.py b/pydevd_plugins/extensions/pydevd_plugin_omegaconf.py
index 3dc3ce1..fae1ef5 100644
--- a/pydevd_plugins/extensions/pydevd_plugin_omegaconf.py
+++ b/pydevd_plugins/extensions/pydevd_plugin_omegaconf.py
@@ -47,12 +47,12 @@ class OmegaConfUserResolver(StrPresentationProvider):  # type: ignore
         return self.Node is not None and issubclass(type_object, self.Node)
 
     def resolve(self, obj: Any, attribute: Any) -> Any:
-        if isinstance(obj, self.ListConfig) and isinstance(attribute, str):
-            attribute = int(attribute)
-
         if isinstance(obj, self.Node):
             obj = obj._dereference_node()
 
+        if isinstance(obj, self.ListConfig) and isinstance(attribute, str):
+            attribute = int(attribute)
+
         val = obj.__dict__["_content"][attribute]
 
         print_debug(
-- 
2.43.0


From 278266228ffc44fcfd29428a7b3a514122f06d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 63/71] fix: an optional float node without a value equals None
 nodes

---
 omegaconf/nodes.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/omegaconf/nodes.py b/omegaconf/nodes.py
index 462d1f5..b1fc6f0 100644
--- a/omegaconf/nodes.py
+++ b/omegaconf/nodes.py
@@ -350,12 +350,6 @@ class FloatNode(ValueNode):
             other_val = other._val
         else:
             other_val = other
-        if self._val is None and other is None:
-            return True
-        if self._val is None and other is not None:
-            return False
-        if self._val is not None and other is None:
-            return False
         nan1 = math.isnan(self._val) if isinstance(self._val, float) else False
         nan2 = math.isnan(other_val) if isinstance(other_val, float) else False
         return self._val == other_val or (nan1 and nan2)
-- 
2.43.0


From 6d2d19b555834a3bf8bf237c7b01f166c52244bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 64/71] fix: queries with a key of the wrong type raise a
 readable error

---
 omegaconf/dictconfig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 2a05297..23bdef4 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -477,9 +477,9 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
     ) -> Optional[Node]:
         try:
             key = self._validate_and_normalize_key(key)
-        except KeyValidationError:
+        except KeyValidationError as e:
             if validate_access and validate_key:
-                raise
+                self._format_and_raise(key=key, value=None, cause=e)
             else:
                 if throw_on_missing_key:
                     raise ConfigAttributeError
-- 
2.43.0


From 2af2f40a4eca7ed8e220e9a58c302e517f888081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 65/71] fix: a failed assignment to a container leaves its type
 and flags as they were

---
 omegaconf/dictconfig.py | 4 +++-
 omegaconf/listconfig.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 23bdef4..3017b3d 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -670,11 +670,13 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         self._metadata.object_type = object_type
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        previous_content = self.__dict__["_content"]
+        previous_metadata = copy.copy(self.__dict__["_metadata"])
         try:
-            previous_content = self.__dict__["_content"]
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
+            self.__dict__["_metadata"] = previous_metadata
             raise e
 
     def _set_value_impl(
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 662fea3..a6df500 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -628,9 +628,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         return False
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        previous_content = self.__dict__["_content"]
+        previous_metadata = copy.copy(self.__dict__["_metadata"])
         try:
-            previous_content = self.__dict__["_content"]
-            previous_metadata = self.__dict__["_metadata"]
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
-- 
2.43.0


From 26c9756e617578b12a58bfaae1194f5ec2eecb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 66/71] fix: iterating a list of unions gives its values

---
 omegaconf/listconfig.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index a6df500..214b5aa 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -15,6 +15,7 @@ from typing import (
 
 from ._utils import (
     ValueKind,
+    _get_value,
     _is_missing_literal,
     _is_none,
     _resolve_optional,
@@ -25,7 +26,7 @@ from ._utils import (
     is_structured_config,
     type_str,
 )
-from .base import Box, ContainerMetadata, Node
+from .base import Box, ContainerMetadata, Node, UnionNode
 from .basecontainer import BaseContainer
 from .errors import (
     ConfigAttributeError,
@@ -564,6 +565,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self.index = self.index + 1
             if isinstance(x, self.ValueNode):
                 return x._value()
+            elif self.resolve and isinstance(x, UnionNode):
+                return _get_value(x)
             else:
                 # Must be omegaconf.Container. not checking for perf reasons.
                 if x._is_none():
-- 
2.43.0


From ac39314345b503822609ee230c5c9230b4f0bf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 67/71] fix: sorting a list config compares the values its
 items read as

---
 omegaconf/listconfig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 214b5aa..177a242 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -507,12 +507,12 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if key is None:
 
                 def key1(x: Any) -> Any:
-                    return x._value()
+                    return _get_value(x._dereference_node())
 
             else:
 
                 def key1(x: Any) -> Any:
-                    return key(x._value())
+                    return key(_get_value(x._dereference_node()))
 
             assert isinstance(self.__dict__["_content"], list)
             self.__dict__["_content"][:] = sorted(
-- 
2.43.0


From c0b2cbabde723aac56421ebe995dc6c2cceff71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 68/71] fix: reversing a list of typed containers keeps every
 item

---
 omegaconf/listconfig.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 177a242..db6a44e 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -524,6 +524,22 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._format_and_raise(key=None, value=None, cause=e)
             assert False
 
+    def reverse(self) -> None:
+        try:
+            if self._get_flag("readonly"):
+                raise ReadonlyConfigError("Cannot reverse a read-only ListConfig")
+            if self._is_none():
+                raise TypeError("Cannot reverse a ListConfig object representing None")
+            if self._is_missing():
+                raise MissingMandatoryValue("Cannot reverse a missing ListConfig")
+
+            self.__dict__["_content"].reverse()
+            self._update_keys()
+
+        except Exception as e:
+            self._format_and_raise(key=None, value=None, cause=e)
+            assert False
+
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, (list, tuple)) or other is None:
             other = ListConfig(other, flags={"allow_objects": True})
-- 
2.43.0


From 09aa823668b5604e475192bb072d6d6df3d2c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 69/71] fix: clearing a dict config works with missing and
 unresolvable values in it

---
 omegaconf/dictconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 3017b3d..296c7cd 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -540,6 +540,10 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         except Exception as e:
             self._format_and_raise(key=key, value=None, cause=e)
 
+    def clear(self) -> None:
+        for key in list(self.keys()):
+            del self[key]
+
     def keys(self) -> KeysView[DictKeyType]:
         if self._is_missing() or self._is_interpolation() or self._is_none():
             return {}.keys()
-- 
2.43.0


From cd7be812731e808273e23695687169b80890a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 70/71] fix: to_container of an interpolation node that
 resolves to None or to a scalar

---
 omegaconf/basecontainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 3ef62e1..03fe18a 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -268,7 +268,10 @@ class BaseContainer(Container, ABC):
 
         if resolve:
             _conf = conf._dereference_node()
-            assert isinstance(_conf, Container)
+            if not isinstance(_conf, Container):
+                return convert(_conf)
+            if _conf._is_none():
+                return None
             conf = _conf
 
         if isinstance(conf, DictConfig):
-- 
2.43.0


From 8fcc9b787b83ccab2003fadb7df74dae2729445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 71/71] fix: flags given when making a config from a None or
 missing config are kept

---
 omegaconf/dictconfig.py | 1 +
 omegaconf/listconfig.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 296c7cd..b28e3b2 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -104,6 +104,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
                     metadata.optional = is_optional
                     metadata.element_type = element_type
                     metadata.key_type = key_type
+                    metadata.flags = copy.deepcopy(flags)
                     self.__dict__["_metadata"] = metadata
                 self._set_value(content, flags=flags)
         except Exception as ex:
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index db6a44e..bf6bee9 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -75,6 +75,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 metadata.ref_type = ref_type
                 metadata.optional = is_optional
                 metadata.element_type = element_type
+                metadata.flags = copy.deepcopy(flags)
                 self.__dict__["_metadata"] = metadata
             self._set_value(value=content, flags=flags)
         except Exception as ex:
-- 
2.43.0

