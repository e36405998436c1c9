From de25b08ea1649cfa650f56c61859e3bae8fb4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 01/30] fix: Span.minimal_enclosing_span no longer fails on
 one-shot iterables

---
 vistautils/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/span.py b/vistautils/span.py
index 7d80016..74aa9d6 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -129,6 +129,8 @@ class Span(Sized):
 
         This will raise a `ValueError` if `spans` is empty.
         """
+        # we iterate twice below, so we can't work directly on one-shot iterables
+        spans = tuple(spans)
         return Span(min(span.start for span in spans), max(span.end for span in spans))
 
     @staticmethod
-- 
2.43.0


From bda40184e462c86096487bc8c125cedc829e36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 02/30] fix: describe cuts and ranges whose endpoints are
 tuples

---
 vistautils/range.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 18a0db0..e2f875a 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -258,13 +258,13 @@ class _BelowValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "[%s" % self._endpoint
+        return "[%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s)" % self._endpoint
+        return "%s)" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "\\\\%s/" % self._endpoint
+        return "\\\\%s/" % (self._endpoint,)
 
 
 @attrs(frozen=True, slots=True, repr=False, hash=False, eq=False)
@@ -295,13 +295,13 @@ class _AboveValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "(%s" % self._endpoint
+        return "(%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s]" % self._endpoint
+        return "%s]" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "/%s\\\\" % self._endpoint
+        return "/%s\\\\" % (self._endpoint,)
 
 
 # must initialize after declaring Range
-- 
2.43.0


From a2c7f5da2c08269b7c75d416a6bcad971bf52e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 03/30] fix: equal range sets hash equally

---
 vistautils/range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index e2f875a..2455475 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -777,7 +777,7 @@ class RangeSet(
             return False
 
     def __hash__(self) -> int:
-        return hash(self.as_ranges())
+        return hash(tuple(self.as_ranges()))
 
     @abstractmethod
     def is_empty(self) -> bool:
-- 
2.43.0


From cbbaac58947d76cbf1fefbfe3051690480245ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 04/30] fix: an empty range set survives pickling with
 protocols 0 and 1

---
 vistautils/range.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index 2455475..76f8ea0 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -1,5 +1,6 @@
 # really needs to be totally-ordered
 from abc import ABCMeta, abstractmethod
+import copyreg
 from datetime import date
 from typing import (
     Any,
@@ -797,6 +798,10 @@ class RangeSet(
     def __repr__(self):
         return self.__class__.__name__ + "(" + str(self.as_ranges()) + ")"
 
+    def __reduce__(self):
+        # pickle protocols 0 and 1 would otherwise drop the (false) state of an empty range set
+        return copyreg.__newobj__, (self.__class__,), self.__getstate__()  # type: ignore
+
     def __getstate__(self) -> Tuple[Range[T], ...]:
         if self.is_empty():
             return ()
-- 
2.43.0


From 0ee1bc1b9703835a6ce7bea0603e2a217b930b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 05/30] fix: ranges without a bound survive pickling and deep
 copying

---
 vistautils/range.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index 76f8ea0..677e0ee 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -192,6 +192,10 @@ class _BelowAll(_Cut[T]):
         # some arbitrary number
         return 233904909
 
+    def __reduce__(self):
+        # unpickling and copying must yield the constant itself, see compare_to
+        return "_BELOW_ALL"
+
 
 @attrs(frozen=True, slots=True, hash=False, eq=False)
 class _AboveAll(_Cut[T]):
@@ -225,6 +229,10 @@ class _AboveAll(_Cut[T]):
         # some arbitrary number
         return 9989388
 
+    def __reduce__(self):
+        # unpickling and copying must yield the constant itself, see compare_to
+        return "_ABOVE_ALL"
+
 
 # noinspection PyRedeclaration
 _BELOW_ALL = _BelowAll()
-- 
2.43.0


From a6c511e025b0f80e12fa828b3906bced3a4207c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 06/30] fix: a disjoint span index rejects different items on
 the same span

---
 vistautils/span.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index 74aa9d6..f3792ac 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -215,7 +215,12 @@ def _build_range_to_item_index(
 ) -> ImmutableRangeMap[int, T]:
     if inp is None:
         return immutablerangemap()
-    return immutablerangemap((span.as_range(), item) for span, item in inp)
+    pairs = [(span.as_range(), item) for span, item in inp]
+    ret = immutablerangemap(pairs)
+    # of several items on the very same span, the map keeps only one
+    if any(ret.rng_to_val[rng] != item for rng, item in pairs):
+        raise ValueError("Some spans are shared by several items")
+    return ret
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From 860ae4b9bd4072cbc3d77bc31c3c2e7435f551d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 07/30] fix: a disjoint span index reports only an item whose
 span contains the query

The items at both ends of the query were compared by equality, so an item which
equals another one was reported for a query reaching from one to the other.
---
 vistautils/span.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index f3792ac..b6b034a 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -246,13 +246,12 @@ class _DisjointHasSpanIndex(HasSpanIndex[T]):
         return self._range_to_item_index.get_enclosed_by(span.as_range())
 
     def get_containing(self, span: Span) -> Optional[T]:
-        rng = span.as_range()
-        if (
-            self._range_to_item_index[rng.lower_endpoint]
-            == self._range_to_item_index[rng.upper_endpoint]
-        ):
-            return self._range_to_item_index[rng.lower_endpoint]
-        return None
+        enclosing_range = self._range_to_item_index.range_set.range_enclosing_range(
+            span.as_range()
+        )
+        if enclosing_range is None:
+            return None
+        return self._range_to_item_index.rng_to_val[enclosing_range]
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From 547d2121bddc731d0edbc6a861a765f975535165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 08/30] fix: annotations of the same span are marked up without
 crossing

---
 vistautils/annotated_text_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index e54cbdd..f589d0d 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -177,9 +177,10 @@ class HTMLStyleAnnotationFormatter:
             HTMLStyleAnnotationFormatter.Tag(to_start_tag(ann), True, ann.span.start)
             for ann in sorted(annotations, key=start_tag_key)
         )
+        # among annotations of the very same span, the one which starts first must end last
         end_tags = (
             HTMLStyleAnnotationFormatter.Tag(to_end_tag(ann), False, ann.span.end)
-            for ann in sorted(annotations, key=end_tag_key)
+            for ann in sorted(reversed(list(annotations)), key=end_tag_key)
         )
 
         # interleave the start and end tag lists
-- 
2.43.0


From c2db2999dd2c03936c42dfb09f52c98ca01a0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 09/30] fix: only() recognises a second element by identity,
 not by its own notion of inequality

---
 vistautils/iter_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/iter_utils.py b/vistautils/iter_utils.py
index 85bb573..74bb7c9 100644
--- a/vistautils/iter_utils.py
+++ b/vistautils/iter_utils.py
@@ -77,7 +77,7 @@ def only(it: Union[Iterator[_T], Iterable[_T]]) -> _T:
         raise ValueError("Expected only a single element in an iterable, but got none")
 
     second_element = next(iterator, _SENTINEL)
-    if second_element != _SENTINEL:
+    if second_element is not _SENTINEL:
         raise ValueError("Expected only a single element in iterable, but got at least 2")
     return ret
 
-- 
2.43.0


From 5ab33d60fbe363da13dc69e41ca03ce2981cf44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 10/30] fix: unification lets a null override a value

---
 vistautils/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e8ba62f..fb25414 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -211,7 +211,7 @@ class Parameters:
 
         ret = dict()
         for (key, old_val) in self._data.items():
-            if key in new_params:
+            if key in new_params._data:
                 new_val = new_params._data[key]
                 if isinstance(old_val, Parameters) != isinstance(new_val, Parameters):
                     if namespace_prefix:
@@ -236,7 +236,7 @@ class Parameters:
                 ret[key] = old_val
 
         for (key, new_val) in new_params._data.items():
-            if key not in self:
+            if key not in self._data:
                 ret[key] = new_val
 
         return Parameters.from_mapping(ret, namespace_prefix=namespace_prefix)
-- 
2.43.0


From 8046946032614cd856634a2318dc6be0a47db222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 11/30] fix: the namespace prefix of an absent namespace is its
 path

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index fb25414..f72cfd1 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1368,7 +1368,7 @@ def _extend_prefix(
 ) -> Tuple[str, ...]:
     ret = list(namespace_prefix)
     ret.append(new_element)
-    return tuple(new_element)
+    return tuple(ret)
 
 
 @attrs(auto_attribs=True)
-- 
2.43.0


From db31b9dc2464646dec3239a5def569abb0875c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 12/30] fix: a string naming a special factory uses that
 factory

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index f72cfd1..f115d97 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1045,7 +1045,7 @@ class Parameters:
                 elif requested_param_string_value in special_factories:
                     return validate(
                         apply_factory(
-                            default_factory,
+                            special_factories[requested_param_string_value],
                             Parameters.empty(
                                 namespace_prefix=_extend_prefix(
                                     self.namespace_prefix, name
-- 
2.43.0


From 5289404bc8558fc1230e3101a9f4775a498d28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 13/30] fix: falsy defaults are defaults

---
 vistautils/parameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index f115d97..a73c212 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -457,7 +457,7 @@ class Parameters:
                 f"For parameter {param_name}, {enum_name} could not be found in "
                 f"{list(enum_class.__members__)}"
             )
-        elif default:
+        elif default is not None:
             return default
         else:
             # Always raises error since param_name returned None on `optional_string()`
@@ -611,7 +611,7 @@ class Parameters:
 
         if name in self:
             return self.positive_integer(name)
-        if default:
+        if default is not None:
             if isinstance(default, int) and default > 0:
                 return default  # type: ignore
             else:
@@ -670,7 +670,7 @@ class Parameters:
 
         if name in self:
             return self.floating_point(name, valid_range)
-        if default:
+        if default is not None:
             if (
                 valid_range is not None
                 and isinstance(default, float)
@@ -791,7 +791,7 @@ class Parameters:
         if default is not None:  # pragma: no cover
             self._warn_about_default()
 
-        if not default:
+        if default is None:
             return self.get_optional(name, List)
         elif isinstance(default, List):
             return self.get_optional(name, List, default=default)
-- 
2.43.0


From bff22d2ea1a50676d06e8d9e40221c1cef1b6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 14/30] fix: falsy values can be interpolated

---
 vistautils/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index a73c212..2b0251c 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1638,7 +1638,7 @@ class YAMLParametersLoader:
                         val
                     ):
                         nodes.append(key)
-                        if get_from_nested_dict(mutable_parameters, interp_match):
+                        if get_from_nested_dict(mutable_parameters, interp_match) is not None:
                             # We don't want to include nodes from the context in the interpolation
                             # ordering since the context is present
                             # only to be referred to by for interpolation into other parameters,
@@ -1657,7 +1657,7 @@ class YAMLParametersLoader:
 
         def get_backing_off_to_context(param_name: str) -> Any:
             from_these_params = get_from_nested_dict(mutable_parameters, param_name)
-            if from_these_params:
+            if from_these_params is not None:
                 return from_these_params
 
             # if the parameter is not present in the parameters we are interpolating directly,
@@ -1676,7 +1676,7 @@ class YAMLParametersLoader:
                 mutable_parameters, param_to_interpolate
             )
 
-            if not uninterpolated_param_value:
+            if uninterpolated_param_value is None:
                 raise RuntimeError(f"This should be impossible: {param_to_interpolate}")
 
             # Next, we need to actually interpolate the values.
-- 
2.43.0


From 49dad59a106fc7009d246374c63f25315c0a4da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 15/30] fix: environment variables with a '.' in their name do
 not break loading

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 2b0251c..35da902 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1513,7 +1513,7 @@ class YAMLParametersLoader:
             if self.interpolate_environmental_variables:
                 for k, v in os.environ.items():
                     # environmental variables are overridden by explicit parameters
-                    if k not in interpolation_context:
+                    if k not in interpolation_context and "." not in k:
                         interpolation_context[k] = v
 
             return previously_loaded.unify(
-- 
2.43.0


From a5e2f0f3869b2d6f82cbc2dcb6fc224625f23d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 16/30] fix: null parameters can be written

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 35da902..4db914b 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1765,7 +1765,7 @@ class YAMLParametersWriter:
             return str(param_node)
         elif isinstance(param_node, Mapping):
             return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
-        elif isinstance(param_node, (str, int, float)):
+        elif param_node is None or isinstance(param_node, (str, int, float)):
             return param_node
         # we need to check this explicitly because otherwise
         # they would trigger the check for sequences below
-- 
2.43.0


From f8b934f4784d0218fed93357fe8c58a16bf58894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 17/30] fix: namespaces holding unhashable values can be listed

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 4db914b..7de40e8 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -74,7 +74,7 @@ class Parameters:
     """
 
     _data: ImmutableDict[str, Any] = attrib(
-        default=immutabledict(), converter=immutabledict
+        default=immutabledict(), converter=immutabledict, hash=False
     )
     namespace_prefix: Tuple[str, ...] = attrib(
         default=tuple(), converter=_to_tuple, kw_only=True
-- 
2.43.0


From 80ac24dc115b810073f8b3409a7e980bbf0e4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 18/30] fix: a failed put leaves no trace in a zip key-value
 sink

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 86a6f3a..a2a19c9 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -483,10 +483,10 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "Zip-backed key-value sinks do not support duplicate puts on the "
                 "same key"
             )
-        self._keys.add(key)
         filename = self._filename_function(key)
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
+        self._keys.add(key)
 
     @abstractmethod
     def _to_bytes(self, val: V) -> bytes:
-- 
2.43.0


From 521527b4fd4374f8773f02cf4ee64cabc2e60a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 19/30] fix: a zip key-value sink entered again starts from the
 keys of its file

---
 vistautils/key_value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index a2a19c9..85725d3 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -494,6 +494,7 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __enter__(self) -> "KeyValueSink[str, V]":
         self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
+        self._keys = set()
         if self._keys_in_function:
             # update rather than assignment because return might not be mutable
             existing_keys = self._keys_in_function(self._zip_file)
-- 
2.43.0


From aa6f4474a96662c41625da53333f406b8775e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 20/30] fix: check_opt_isinstance rejects falsy values of other
 types

---
 vistautils/preconditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index 249fd54..e849729 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -71,7 +71,7 @@ def check_opt_isinstance(item: T, classinfo: _ClassInfo) -> T:
 
     Raises a TypeError otherwise
     """
-    if item and not isinstance(item, classinfo):
+    if item is not None and not isinstance(item, classinfo):
         raise TypeError(
             "Expected instance of type {!r} but got type {!r} for {!r}".format(
                 classinfo, type(item), item
-- 
2.43.0


From 7e575aac662363cd4692be47b5c898d1550c8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 21/30] fix: explicitly given parameters are used by
 parameters_only_entry_point

---
 vistautils/parameters_only_entrypoint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters_only_entrypoint.py b/vistautils/parameters_only_entrypoint.py
index 231932d..a6d53bd 100644
--- a/vistautils/parameters_only_entrypoint.py
+++ b/vistautils/parameters_only_entrypoint.py
@@ -59,13 +59,16 @@ def _real_parameters_only_entry_point(
         program_name = os.path.basename(main.__file__)
 
     arg_parser = ArgumentParser(prog=program_name, description=usage_message)
-    if not parameters:
+    if parameters is None:
         arg_parser.add_argument("param_file", type=Path)
     arg_parser.add_argument("-p", action="append", nargs=2, required=False)
 
     parsed_args = arg_parser.parse_args(args)
 
-    params = YAMLParametersLoader().load(parsed_args.param_file)
+    if parameters is None:
+        params = YAMLParametersLoader().load(parsed_args.param_file)
+    else:
+        params = parameters
     if parsed_args.p:
         params = params.unify(params.from_key_value_pairs(parsed_args.p))
     configure_logging_from(params)
-- 
2.43.0


From 3b3720a5a8da2b8cfed36010b9978e27b873b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 22/30] fix: the zip made from a .tar.gz file is named without
 a double dot

---
 vistautils/scripts/tar_gz_to_zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 447b3b0..6bcf2e9 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -85,7 +85,7 @@ def main():
 
 
 def _output_name(filename: str) -> str:
-    valid_extensions = [".tar", ".tgz", "tar.gz"]
+    valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
         if filename.endswith(valid_extension):
             filename = filename[: len(filename) - len(valid_extension)]
-- 
2.43.0


From bc729bf383b1ede773c5ff5b134c07bc528e135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 23/30] fix: downsampling works on Pythons whose shuffle takes
 no random function

---
 vistautils/scripts/downsample_key_value_store.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index b90a38d..c34a8f6 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -34,10 +34,7 @@ def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
         keys = list(input_source.keys())
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
-        random.shuffle(
-            keys,
-            random=random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).random,
-        )
+        random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
         output_zip_path = params.creatable_file("output_zip_path")
         logging.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
-- 
2.43.0


From 70feb13c0dc6967f389dd19edbc97d6cf1babf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 24/30] fix: must_be_exhaustive is looked up in explicit_split,
 as documented

---
 vistautils/scripts/split_key_value_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index ad860df..7a9b56f 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -114,7 +114,9 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
                         )
                     raise RuntimeError(error_message)
 
-    if params.boolean("must_be_exhaustive", default=True):
+    if explicit_split_namespace.boolean(
+        "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
+    ):
         keys_not_copied = immutableset(source.keys()) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
-- 
2.43.0


From 213f20837e35e55c75245d8db4526c601a8a7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 25/30] fix: sources of type file-map read the docID to file
 map

---
 vistautils/key_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 85725d3..d52298c 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -836,12 +836,12 @@ class _InterpretedKeyValueSource(Generic[K, V], KeyValueSource[K, V]):
 
 _CHAR_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValuesSource",
-    "file-map": "_PathMappingCharKeyValueSource",
+    "file-map": "_doc_id_source_from_params",
 }
 
 _BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValuesSource",
-    "file-map": "_PathMappingBytesKeyValueSource",
+    "file-map": "_doc_id_binary_source_from_params",
 }
 
 
-- 
2.43.0


From 33da1418e3579e5477141f48cb21a6b9aaca975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 26/30] fix: sinks of type directory write to a directory

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index d52298c..3abaa0d 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1020,11 +1020,13 @@ def byte_key_value_source_from_params(
 _CHAR_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValueSink",
     "file-map": "_DirectoryCharKeyValueSink",
+    "directory": "_DirectoryCharKeyValueSink",
 }
 
 _BYTE_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValueSink",
     "file-map": "_DirectoryBytesKeyValueSink",
+    "directory": "_DirectoryBytesKeyValueSink",
 }
 
 
-- 
2.43.0


From c26856a2f5064d234f07110eeef43d64a3580c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 27/30] fix: memory amounts with trailing text are not parsed

---
 vistautils/memory_amount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/memory_amount.py b/vistautils/memory_amount.py
index b0dbdac..4d7fb5b 100644
--- a/vistautils/memory_amount.py
+++ b/vistautils/memory_amount.py
@@ -64,7 +64,7 @@ class MemoryAmount:
 
     @staticmethod
     def parse(memory_string: str) -> "MemoryAmount":
-        parts = MemoryAmount._PARSE_PATTERN.match(memory_string)
+        parts = MemoryAmount._PARSE_PATTERN.fullmatch(memory_string)
         if parts:
             return MemoryAmount(
                 amount=int(parts.group(1)), unit=MemoryUnit.parse(parts.group(2))
-- 
2.43.0


From f1f8ccb52b78e7b38e6de544e553498a15ad536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 28/30] fix: blank lines of a docID to file map are skipped

---
 vistautils/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 63a8b06..44cb9e5 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -675,7 +675,7 @@ def read_doc_id_to_file_map(source: CharSource) -> Mapping[str, Path]:
     items: List[Tuple[str, Path]] = []
     with source.open() as inp:
         for (line_num, line) in enumerate(inp):
-            if line:
+            if line.strip():
                 parts = line.split("\t")
                 if len(parts) == 2:
                     items.append((parts[0].strip(), Path(parts[1].strip())))
-- 
2.43.0


From c489b1f7a928a1d75bc2c0e3dbcbce55f5279cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 29/30] fix: a zip key-value sink which has been left refuses
 puts as one never entered

---
 vistautils/key_value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 3abaa0d..8dda3aa 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -507,6 +507,7 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
         if self._keys_out_function:
             self._keys_out_function(self._zip_file, self._keys)  # type: ignore
         self._zip_file.close()  # type: ignore
+        self._zip_file = None
 
 
 class _ZipCharFileKeyValueSink(_ZipKeyValueSink[str]):
-- 
2.43.0


From 346963af1fa4e0793f1e4180e9235db41e582ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:44 +0000
Subject: [PATCH 30/30] fix: elements of a class can be created on Pythons
 newer than 3.9

immutabledict refuses built-in dictionaries there; it is given pairs instead.
---
 vistautils/annotated_text_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index f589d0d..68d1b76 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -42,11 +42,11 @@ class AnnotatedSpan:
 
     @staticmethod
     def create_div_of_class(span: Span, clazz: str) -> "AnnotatedSpan":
-        return AnnotatedSpan(DIV, span, {"class": clazz})
+        return AnnotatedSpan(DIV, span, immutabledict([("class", clazz)]))
 
     @staticmethod
     def create_span_of_class(span: Span, clazz: str) -> "AnnotatedSpan":
-        return AnnotatedSpan(SPAN, span, {"class": clazz})
+        return AnnotatedSpan(SPAN, span, immutabledict([("class", clazz)]))
 
 
 def to_start_tag(annotated_range: AnnotatedSpan) -> str:
-- 
2.43.0

