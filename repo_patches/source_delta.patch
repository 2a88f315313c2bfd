From 962f6705788e2d5122020585d08546d0dc256e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 01/36] fix: call() passes keyword-only parameters and counts
 no bound parameter

Bound methods, callable objects and classes without constructor got one
positional argument too many (or too few), and keyword-only parameters
were never passed.
---
 rebulk/loose.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 5330e34..0e163b5 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -5,14 +5,11 @@ Various utilities functions
 
 from __future__ import annotations
 
-from inspect import getfullargspec, isclass
-from typing import TYPE_CHECKING, Any, cast
+from inspect import Parameter, Signature, isclass, signature
+from typing import Any, cast
 
 from .utils import is_iterable
 
-if TYPE_CHECKING:
-    from inspect import FullArgSpec
-
 
 def _constructor(class_: Any) -> Any:
     """
@@ -26,7 +23,7 @@ def _constructor(class_: Any) -> Any:
     return class_
 
 
-def call(function: Any, *args: Any, **kwargs: Any) -> Any:
+def call(function: Any, /, *args: Any, **kwargs: Any) -> Any:
     """
     Call a function or constructor with given args and kwargs after removing args and kwargs that doesn't match
     function or constructor signature
@@ -45,7 +42,7 @@ def call(function: Any, *args: Any, **kwargs: Any) -> Any:
     return function(*call_args, **call_kwargs)
 
 
-def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
+def function_args(callable_: Any, /, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     """
     Return (args, kwargs) matching the function signature
 
@@ -58,11 +55,10 @@ def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    argspec = getfullargspec(callable_)
-    return argspec_args(argspec, False, *args, **kwargs)
+    return signature_args(signature(callable_, follow_wrapped=False), *args, **kwargs)
 
 
-def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
+def constructor_args(class_: Any, /, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     """
     Return (args, kwargs) matching the function signature
 
@@ -75,18 +71,15 @@ def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    argspec = getfullargspec(_constructor(class_))
-    return argspec_args(argspec, True, *args, **kwargs)
+    return signature_args(signature(_constructor(class_), follow_wrapped=False), *args, **kwargs)
 
 
-def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
+def signature_args(sig: Signature, /, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     """
-    Return (args, kwargs) matching the argspec object
+    Return (args, kwargs) matching the signature, which leaves out the object or class the callable is bound to.
 
-    :param argspec: argspec to use
-    :type argspec: argspec
-    :param constructor: is it a constructor ?
-    :type constructor: bool
+    :param sig: signature to use
+    :type sig: inspect.Signature
     :param args:
     :type args:
     :param kwargs:
@@ -94,8 +87,12 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in argspec.args}
-    call_args = args if argspec.varargs else args[: len(argspec.args) - (1 if constructor else 0)]
+    parameters = sig.parameters.values()
+    kinds = [parameter.kind for parameter in parameters]
+    keywords = {p.name for p in parameters if p.kind in (Parameter.POSITIONAL_OR_KEYWORD, Parameter.KEYWORD_ONLY)}
+    call_kwarg = kwargs if Parameter.VAR_KEYWORD in kinds else {k: kwargs[k] for k in kwargs if k in keywords}
+    positional = kinds.count(Parameter.POSITIONAL_ONLY) + kinds.count(Parameter.POSITIONAL_OR_KEYWORD)
+    call_args = args if Parameter.VAR_POSITIONAL in kinds else args[:positional]
     return call_args, call_kwarg
 
 
-- 
2.43.0


From 1891125fa991ba98b6c6b2fb0455fba7a8932166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 02/36] fix: call() no longer hands a surprise ignore_unused
 keyword to the function

Only the regex module's compile() needs it.
---
 rebulk/loose.py   | 2 +-
 rebulk/pattern.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 0e163b5..f914f4d 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -38,7 +38,7 @@ def call(function: Any, /, *args: Any, **kwargs: Any) -> Any:
     :rtype: object
     """
     func = constructor_args if isclass(function) else function_args
-    call_args, call_kwargs = func(function, *args, ignore_unused=True, **kwargs)  # @see #20
+    call_args, call_kwargs = func(function, *args, **kwargs)
     return function(*call_args, **call_kwargs)
 
 
diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 58c352f..a5c9358 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -477,7 +477,7 @@ class RePattern(Pattern):
                 if self.abbreviations and pattern:
                     for key, replacement in self.abbreviations:
                         pattern = pattern.replace(key, replacement)
-                pattern = call(re.compile, pattern, **self._kwargs)
+                pattern = call(re.compile, pattern, **{**self._kwargs, "ignore_unused": True})  # @see #20
             elif isinstance(pattern, dict):
                 if self.abbreviations and "pattern" in pattern:
                     for key, replacement in self.abbreviations:
-- 
2.43.0


From f302b9b166986e7b22bd71d6309f62bee7c7b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 03/36] fix: a match has its own list of tags

Tagging a match in a rule changed the tags of its pattern, of the caller's
list and of every later match.
---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 1558dfe..adfe367 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1033,7 +1033,7 @@ class Match:
         self.end = end
         self.name = name
         self._value = value
-        self.tags: list[str] = ensure_list(tags)
+        self.tags: list[str] = list(ensure_list(tags))
         self.marker = marker
         self.parent = parent
         self.input_string = input_string
-- 
2.43.0


From db657b731ed23fcdec27fc1fd9d50b4d64314b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 04/36] fix: removing a match removes that very match, not an
 equal one

A private match equal to a public one made the private remover drop the
public one and leak the private one; the conflict solver dropped the wrong
twin in the same way.
---
 rebulk/match.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index adfe367..cee5574 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -101,7 +101,6 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
     _base = list
     _base_add = _base.append
-    _base_remove = _base.remove
     _base_extend = _base.extend
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
@@ -184,6 +183,19 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 _BaseMatches._base_add(self._index_dict[index], match)
         self._max_end = max(self._max_end, match.end)
 
+    @staticmethod
+    def _remove_from(lookup: dict[Any, list[Match]], key: Any, match: Match) -> None:
+        """
+        Remove this very match, and not an equal one, from a lookup structure
+        :param lookup:
+        :type lookup: dict
+        :param key:
+        :param match:
+        :type match: Match
+        """
+        values = lookup[key]
+        del values[[id(value) for value in values].index(id(match))]
+
     def _remove_match(self, match: Match) -> None:
         """
         Remove a match
@@ -191,17 +203,17 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :type match: Match
         """
         if self.__name_dict is not None and match.name:
-            _BaseMatches._base_remove(self._name_dict[match.name], match)
+            self._remove_from(self.__name_dict, match.name, match)
         if self.__tag_dict is not None:
             for tag in match.tags:
-                _BaseMatches._base_remove(self._tag_dict[tag], match)
+                self._remove_from(self.__tag_dict, tag, match)
         if self.__start_dict is not None:
-            _BaseMatches._base_remove(self._start_dict[match.start], match)
+            self._remove_from(self.__start_dict, match.start, match)
         if self.__end_dict is not None:
-            _BaseMatches._base_remove(self._end_dict[match.end], match)
+            self._remove_from(self.__end_dict, match.end, match)
         if self.__index_dict is not None:
             for index in range(*match.span):
-                _BaseMatches._base_remove(self._index_dict[index], match)
+                self._remove_from(self.__index_dict, index, match)
         if match.end >= self._max_end and not self._end_dict[match.end]:
             self._max_end = max(self._end_dict.keys())
 
@@ -976,6 +988,16 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __repr__(self) -> str:
         return self._delegate.__repr__()
 
+    def remove(self, value: Match) -> None:
+        """
+        Remove the given match itself if it is there, else the first equal one.
+        """
+        for index, match in enumerate(self._delegate):
+            if match is value:
+                del self[index]
+                return
+        super().remove(value)
+
     def insert(self, index: int, value: Match) -> None:
         self._delegate.insert(index, value)
         self._add_match(value)
-- 
2.43.0


From e92524d49fbabd724a8a3a6dffd5c98a44c4aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 05/36] fix: queries and removals leave no trace in the lookups
 of a sequence

Names and tags listed ones that were only asked for or had been removed,
the maximum end stayed at a removed match, and at_index gave away the
lookup's own list.
---
 rebulk/match.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index cee5574..4942ba1 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -186,7 +186,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     @staticmethod
     def _remove_from(lookup: dict[Any, list[Match]], key: Any, match: Match) -> None:
         """
-        Remove this very match, and not an equal one, from a lookup structure
+        Remove this very match, and not an equal one, from a lookup structure, and the entry it leaves empty
         :param lookup:
         :type lookup: dict
         :param key:
@@ -195,6 +195,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         values = lookup[key]
         del values[[id(value) for value in values].index(id(match))]
+        if not values:
+            del lookup[key]
 
     def _remove_match(self, match: Match) -> None:
         """
@@ -214,8 +216,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__index_dict is not None:
             for index in range(*match.span):
                 self._remove_from(self.__index_dict, index, match)
-        if match.end >= self._max_end and not self._end_dict[match.end]:
-            self._max_end = max(self._end_dict.keys())
+        if match.end >= self._max_end and match.end not in self._end_dict:
+            self._max_end = max(self._end_dict.keys(), default=0)
 
     @overload
     def previous(self, match: Match, predicate: int) -> Match | None: ...
@@ -320,7 +322,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             index = extras[1]
         collection: list[Match] = []
         for name in dict.fromkeys(name_list):
-            collection.extend(self._name_dict[name])
+            collection.extend(self._name_dict.get(name, ()))
         return filter_index(collection, predicate, index)
 
     @overload
@@ -343,7 +345,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._tag_dict[tag]), predicate, index)
+        return filter_index(_BaseMatches._base(self._tag_dict.get(tag, ())), predicate, index)
 
     @overload
     def starting(self, start: int, predicate: int) -> Match | None: ...
@@ -367,7 +369,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._start_dict[start]), predicate, index)
+        return filter_index(_BaseMatches._base(self._start_dict.get(start, ())), predicate, index)
 
     @overload
     def ending(self, end: int, predicate: int) -> Match | None: ...
@@ -387,7 +389,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._end_dict[end]), predicate, index)
+        return filter_index(_BaseMatches._base(self._end_dict.get(end, ())), predicate, index)
 
     @overload
     def range(self, start: int, end: int | None, predicate: int) -> Match | None: ...
@@ -744,8 +746,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given (start, end) tuple.
         """
-        starting = self._index_dict[span[0]]
-        ending = self._index_dict[span[1] - 1]
+        starting = self._index_dict.get(span[0], ())
+        ending = self._index_dict.get(span[1] - 1, ())
 
         merged = list(starting)
         for marker in ending:
@@ -768,7 +770,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given position
         """
-        return filter_index(self._index_dict[pos], predicate, index)
+        return filter_index(_BaseMatches._base(self._index_dict.get(pos, ())), predicate, index)
 
     @property
     def names(self) -> KeysView[str | None]:
@@ -843,7 +845,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
     def __getitem__(self, index: int | slice | Key[Any]) -> Any:
         if isinstance(index, Key):
-            named = self._name_dict[index.name]
+            named = self._name_dict.get(index.name)
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
@@ -854,7 +856,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieve all values for the given typed key, in match order.
         """
-        return [match.value for match in self._name_dict[key.name]]
+        return [match.value for match in self._name_dict.get(key.name, ())]
 
     def to(self, model: type[M]) -> M:
         """
@@ -915,7 +917,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     f"{model.__name__} field {name!r} typed {hint!r} contradicts "
                     f"declared key {name!r} of value_type {declared.value_type!r}"
                 )
-            values = [match.value for match in self._name_dict[name]]
+            values = [match.value for match in self._name_dict.get(name, ())]
             if get_origin(hint) is list:
                 kwargs[name] = values
             elif values:
-- 
2.43.0


From a3fd5c3fd5899b180118ae29ce3b7502c7c5e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 06/36] fix: item assignment, insertion and rejected matches
 keep lookups exact

Assignment left the replaced match in the lookups, insertion elsewhere than
at the end made their order depend on what had been queried before, and a
refused match stayed in the sequence.
---
 rebulk/match.py | 56 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 4942ba1..c897eff 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -163,9 +163,27 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
         return self.__index_dict
 
+    def _check_match(self, match: Match) -> None:
+        """
+        Check that a match may be added, before anything is changed
+        :param match:
+        :type match: Match
+        """
+
+    def _reset_lookups(self) -> None:
+        """
+        Forget lookup structures, they are built again on demand
+        """
+        self.__name_dict = None
+        self.__tag_dict = None
+        self.__start_dict = None
+        self.__end_dict = None
+        self.__index_dict = None
+        self._max_end = max((match.end for match in self._delegate), default=0)
+
     def _add_match(self, match: Match) -> None:
         """
-        Add a match
+        Add a match at the end
         :param match:
         :type match: Match
         """
@@ -970,20 +988,20 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __setitem__(self, index: slice, match: Iterable[Match]) -> None: ...
 
     def __setitem__(self, index: int | slice, match: Match | Iterable[Match]) -> None:
-        self._delegate[index] = match  # type: ignore[index,assignment]
         if isinstance(index, slice):
-            for match_item in match:  # type: ignore[union-attr]
-                self._add_match(match_item)
-            return
-        self._add_match(match)  # type: ignore[arg-type]
+            match = list(cast("Iterable[Match]", match))
+            for match_item in match:
+                self._check_match(match_item)
+        else:
+            self._check_match(cast("Match", match))
+        self._delegate[index] = match  # type: ignore[index,assignment]
+        self._reset_lookups()
 
     def __delitem__(self, index: int | slice) -> None:
         match = self._delegate[index]
         del self._delegate[index]
-        if isinstance(match, list):
-            # if index is a slice, we has a match list
-            for match_item in match:
-                self._remove_match(match_item)
+        if isinstance(match, list) or any(other is match for other in self._delegate):
+            self._reset_lookups()
         else:
             self._remove_match(match)
 
@@ -1001,8 +1019,18 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         super().remove(value)
 
     def insert(self, index: int, value: Match) -> None:
+        self._check_match(value)
         self._delegate.insert(index, value)
-        self._add_match(value)
+        if index >= len(self._delegate) - 1:
+            self._add_match(value)
+        else:
+            self._reset_lookups()
+
+    def extend(self, values: Iterable[Match]) -> None:
+        values = list(values)
+        for value in values:
+            self._check_match(value)
+        super().extend(values)
 
 
 class Matches(_BaseMatches):
@@ -1014,9 +1042,8 @@ class Matches(_BaseMatches):
         self.markers = Markers(input_string=input_string)
         super().__init__(matches=matches, input_string=input_string)
 
-    def _add_match(self, match: Match) -> None:
+    def _check_match(self, match: Match) -> None:
         assert not match.marker, "A marker match should not be added to <Matches> object"
-        super()._add_match(match)
 
 
 class Markers(_BaseMatches):
@@ -1027,9 +1054,8 @@ class Markers(_BaseMatches):
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
         super().__init__(matches=None, input_string=input_string)
 
-    def _add_match(self, match: Match) -> None:
+    def _check_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-        super()._add_match(match)
 
 
 class Match:
-- 
2.43.0


From 90bd1e3a4322eb730fee4f0428a2976f2c3c7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 07/36] fix: slices of a match sequence keep its kind and text

A slice of markers failed, Markers(matches) dropped the matches, and a
slice lost the input string.
---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index c897eff..4133775 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -867,7 +867,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return Matches(ret)
+            return type(self)(ret, input_string=self.input_string)
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
@@ -1052,7 +1052,7 @@ class Markers(_BaseMatches):
     """
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
-        super().__init__(matches=None, input_string=input_string)
+        super().__init__(matches=matches, input_string=input_string)
 
     def _check_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-- 
2.43.0


From 95fc033d0ad53a525ec0da17779c7e11b21b1aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 08/36] fix: conflicting() shows every overlapping match of any
 given match

It raised ValueError for a match that is not in the sequence, and a private
match hid an equal public one from the conflict solver.
---
 rebulk/match.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 4133775..781ae73 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -720,11 +720,9 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
         for i in range(*match.span):
             for at_match in self.at_index(i):
-                if at_match not in ret:
+                if at_match != match and not any(at_match is other for other in ret):
                     ret.append(at_match)
 
-        ret.remove(match)
-
         return filter_index(ret, predicate, index)
 
     @overload
-- 
2.43.0


From 789fe03c09dafd94322ae2c357c22920ae131401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 09/36] fix: holes() returns no empty or reversed hole

---
 rebulk/match.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index 781ae73..3168806 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -690,6 +690,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if ret and hole:
             # go the the next starting element ...
             ret[-1].end = min(self._hole_end(rindex, ignore), end)
+        ret = [hole_match for hole_match in ret if hole_match.start < hole_match.end]
         return filter_index(ret, predicate, index)
 
     @overload
-- 
2.43.0


From 8c0e3771f2b0df93c6c6586f2c8550ee9f8f229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 10/36] fix: a tag given twice counts once

A match holding a tag twice was returned twice by tagged(), and RemoveTags
left the second one.
---
 rebulk/match.py | 6 +++---
 rebulk/rules.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 3168806..d92c1b6 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -148,7 +148,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__tag_dict is None:
             self.__tag_dict = defaultdict(_BaseMatches._base)
             for match in self._delegate:
-                for tag in match.tags:
+                for tag in dict.fromkeys(match.tags):
                     _BaseMatches._base_add(self.__tag_dict[tag], match)
 
         return self.__tag_dict
@@ -190,7 +190,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__name_dict is not None and match.name:
             _BaseMatches._base_add(self._name_dict[match.name], (match))
         if self.__tag_dict is not None:
-            for tag in match.tags:
+            for tag in dict.fromkeys(match.tags):
                 _BaseMatches._base_add(self._tag_dict[tag], match)
         if self.__start_dict is not None:
             _BaseMatches._base_add(self._start_dict[match.start], match)
@@ -225,7 +225,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__name_dict is not None and match.name:
             self._remove_from(self.__name_dict, match.name, match)
         if self.__tag_dict is not None:
-            for tag in match.tags:
+            for tag in dict.fromkeys(match.tags):
                 self._remove_from(self.__tag_dict, tag, match)
         if self.__start_dict is not None:
             self._remove_from(self.__start_dict, match.start, match)
diff --git a/rebulk/rules.py b/rebulk/rules.py
index 484af10..853d58a 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -238,11 +238,11 @@ class RemoveTags(Consequence):
             removed = list(removed)
             for match in removed:
                 for tag in self.tags:
-                    if tag in match.tags:
+                    while tag in match.tags:
                         match.tags.remove(tag)
         elif removed:
             for tag in self.tags:
-                if tag in removed.tags:
+                while tag in removed.tags:
                     removed.tags.remove(tag)
         if removed:
             self.append.then(matches, removed, context)
-- 
2.43.0


From 3b0f59c1736ea471089d840aae82d94c6508c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 11/36] fix: AppendMatch leaves a match that is already there
 untouched

A single match already in the sequence was renamed in place, behind the back
of the lookups; in a list it was left alone.
---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 853d58a..3e11030 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -170,9 +170,9 @@ class AppendMatch(Consequence):
                     matches.append(match)
                     ret.append(match)
             return ret
-        if self.match_name:
-            when_response.name = self.match_name
         if when_response not in matches:
+            if self.match_name:
+                when_response.name = self.match_name
             matches.append(when_response)
             return when_response
         return None
-- 
2.43.0


From 96291d3666cccc41e7b0bca116e9ca1c4a137b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 12/36] fix: AppendTags and RemoveTags do not drop equal
 matches

Of two equal matches only the first was put back once tagged.
---
 rebulk/rules.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 3e11030..4592745 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -208,7 +208,6 @@ class AppendTags(Consequence):
     def __init__(self, tags: list[str]) -> None:
         self.tags = tags
         self.remove = RemoveMatch()
-        self.append = AppendMatch()
 
     def then(self, matches: Matches, when_response: Any, context: dict[str, Any] | None) -> Any:
         removed = self.remove.then(matches, when_response, context)
@@ -219,7 +218,8 @@ class AppendTags(Consequence):
         elif removed:
             removed.tags.extend(self.tags)
         if removed:
-            self.append.then(matches, removed, context)
+            # put back every removed match, even next to an equal one
+            matches.extend(removed if is_iterable(removed) else [removed])
 
 
 class RemoveTags(Consequence):
@@ -230,7 +230,6 @@ class RemoveTags(Consequence):
     def __init__(self, tags: list[str]) -> None:
         self.tags = tags
         self.remove = RemoveMatch()
-        self.append = AppendMatch()
 
     def then(self, matches: Matches, when_response: Any, context: dict[str, Any] | None) -> Any:
         removed = self.remove.then(matches, when_response, context)
@@ -245,7 +244,8 @@ class RemoveTags(Consequence):
                 while tag in removed.tags:
                     removed.tags.remove(tag)
         if removed:
-            self.append.then(matches, removed, context)
+            # put back every removed match, even next to an equal one
+            matches.extend(removed if is_iterable(removed) else [removed])
 
 
 class Rules(list[CustomRule]):
-- 
2.43.0


From 39350c2529a3be12641fd687c4550687495d81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 13/36] fix: string search ends for an empty string and keeps
 spans exact

An empty search string was searched forever, and with ignore_case a
character whose lower case is longer shifted every later match.
---
 rebulk/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index 935abdb..11a2aee 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -12,6 +12,13 @@ from typing import Any, TypeVar
 _T = TypeVar("_T")
 
 
+def _lower(string: str) -> str:
+    """
+    Lower each character, keeping those whose lower case is longer so that indices stay valid.
+    """
+    return "".join(lower if len(lower := char.lower()) == 1 else char for char in string)
+
+
 def find_all(
     string: str,
     sub: str,
@@ -52,9 +59,11 @@ def find_all(
     :return: all indices in the input string
     :rtype: __generator[str]
     """
+    if not sub:
+        return
     if ignore_case:
-        sub = sub.lower()
-        string = string.lower()
+        sub = _lower(sub)
+        string = _lower(string)
     while True:
         start = string.find(sub, start, end)
         if start == -1:
-- 
2.43.0


From 1c934e08a4235a8d4ba34106148edca1e0a81a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 14/36] fix: abbreviations apply to every form of expression,
 in a copy

A dict given by the caller was rewritten in place and a tuple was not
abbreviated at all.
---
 rebulk/pattern.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index a5c9358..58a95ea 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -474,19 +474,26 @@ class RePattern(Pattern):
         self._patterns: list[Any] = []
         for pattern in patterns:
             if isinstance(pattern, str):
-                if self.abbreviations and pattern:
-                    for key, replacement in self.abbreviations:
-                        pattern = pattern.replace(key, replacement)
+                pattern = self._abbreviate(pattern)
                 pattern = call(re.compile, pattern, **{**self._kwargs, "ignore_unused": True})  # @see #20
             elif isinstance(pattern, dict):
-                if self.abbreviations and "pattern" in pattern:
-                    for key, replacement in self.abbreviations:
-                        pattern["pattern"] = pattern["pattern"].replace(key, replacement)
+                if "pattern" in pattern:
+                    pattern = {**pattern, "pattern": self._abbreviate(pattern["pattern"])}
                 pattern = re.compile(**pattern)
             elif hasattr(pattern, "__iter__"):
-                pattern = re.compile(*pattern)
+                pattern, *args = pattern
+                pattern = re.compile(self._abbreviate(pattern), *args)
             self._patterns.append(pattern)
 
+    def _abbreviate(self, pattern: Any) -> Any:
+        """
+        Replace abbreviations in the text of an expression.
+        """
+        if self.abbreviations and isinstance(pattern, str):
+            for key, replacement in self.abbreviations:
+                pattern = pattern.replace(key, replacement)
+        return pattern
+
     @property
     def patterns(self) -> Sequence[Any]:
         return self._patterns
-- 
2.43.0


From 2905aa2b10ad31e61314686dfb6317bd0b909c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 15/36] fix: merging defaults changes neither the defaults nor
 the given options

Dict options were merged in place into the caller's dict (so that overrides
did not restore it either), and a formatter or validator for a match named
'clear' wiped the whole dict.
---
 rebulk/loose.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index f914f4d..4c24e92 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -179,10 +179,21 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
     if "clear" in defaults and defaults.pop("clear"):
         kwargs.clear()
     for key, value in defaults.items():
-        if key in kwargs:
-            if isinstance(value, list) and isinstance(kwargs[key], list):
-                kwargs[key] = list(value) + kwargs[key]
-            elif isinstance(value, dict) and isinstance(kwargs[key], dict):
-                set_defaults(value, kwargs[key])
         if key not in kwargs or override:
             kwargs[key] = value
+        else:
+            kwargs[key] = _merge_default(value, kwargs[key])
+
+
+def _merge_default(default: Any, value: Any) -> Any:
+    """
+    Complete a value with its default, changing neither of them: lists are concatenated, dicts are merged.
+    """
+    if isinstance(default, list) and isinstance(value, list):
+        return default + value
+    if isinstance(default, dict) and isinstance(value, dict):
+        merged = dict(value)
+        for key, default_value in default.items():
+            merged[key] = _merge_default(default_value, merged[key]) if key in merged else default_value
+        return merged
+    return value
-- 
2.43.0


From 10d91316ce73f2ed764056db5fee7049dde9e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 16/36] fix: a rule can be given a log level

CustomRule(log_level=...) did not keep the level and failed when run.
---
 rebulk/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 4592745..31b339a 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -77,7 +77,9 @@ class CustomRule(Condition, Consequence, metaclass=ABCMeta):
     def __init__(self, log_level: int | None = None) -> None:
         self.defined_at = debug.defined_at()
         self.log_level: int
-        if log_level is None and not hasattr(self, "log_level"):
+        if log_level is not None:
+            self.log_level = log_level
+        elif not hasattr(self, "log_level"):
             self.log_level = debug.LOG_LEVEL
 
     def enabled(self, context: dict[str, Any] | None) -> bool:
-- 
2.43.0


From 2c7e79e6962522f3b95254eb2493e21af897b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 17/36] fix: toposort leaves the dependency sets of its input
 unmodified

---
 rebulk/toposort.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rebulk/toposort.py b/rebulk/toposort.py
index ae68583..1d7c6ab 100644
--- a/rebulk/toposort.py
+++ b/rebulk/toposort.py
@@ -41,12 +41,8 @@ def toposort(data: dict[_T, set[_T]]) -> Iterator[set[_T]]:
     if len(data) == 0:
         return
 
-    # Copy the input so as to leave it unmodified.
-    data = data.copy()
-
-    # Ignore self dependencies.
-    for k, v in data.items():
-        v.discard(k)
+    # Copy the input so as to leave it unmodified, and ignore self dependencies.
+    data = {k: v - {k} for k, v in data.items()}
     # Find all items that don't depend on anything.
     extra_items_in_deps = reduce(set.union, data.values()) - set(data.keys())
     # Add empty dependences where needed.
-- 
2.43.0


From 8029ea02875a12d32b74eb43dae4899147dd5434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 18/36] fix: to_dict does not append to a list that is the
 value of a match

It changed the match, the value of its pattern and every later search.
---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index d92c1b6..86278db 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -840,7 +840,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     else:
                         if value in ret[match.name]:
                             continue
-                    ret[match.name].append(value)
+                    ret[match.name] = [*ret[match.name], value]  # the list there may be the value of a match
             else:
                 if enforce_list and not isinstance(value, list):
                     ret[match.name] = [value]
-- 
2.43.0


From 31310eb3327374d20fb6b4996a66710b76cbadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 19/36] fix: repeater('{n}') means exactly n times

It meant n times or more.
---
 rebulk/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 18be788..089e311 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -386,10 +386,10 @@ class ChainPart(BasePattern):
             self.repeater_start = 0
             self.repeater_end = 1
         else:
-            match = re.match(r"\{\s*(\d*)\s*,?\s*(\d*)\s*\}", value)
+            match = re.match(r"\{\s*(\d*)\s*(,?)\s*(\d*)\s*\}", value)
             if match:
                 start = match.group(1)
-                end = match.group(2)
+                end = match.group(3) if match.group(2) else start
                 if start or end:
                     self.repeater_start = int(start) if start else 0
                     self.repeater_end = int(end) if end else None
-- 
2.43.0


From 208ba4a2c86f068c5e47db874fe538d988308c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 20/36] fix: a chain search resumes after the start of a failed
 attempt

It resumed at one offset with the text left over at another one, reporting
spans that no part matched, and gave up the whole search when the first
part was found fewer times than its repeater asks.
---
 rebulk/chain.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 089e311..0b4cb3b 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -24,6 +24,10 @@ class _InvalidChainException(Exception):
     Internal exception raised when a chain is not valid
     """
 
+    def __init__(self, raw_matches: list[Match]) -> None:
+        super().__init__()
+        self.raw_matches = raw_matches
+
 
 class Chain(Pattern):
     """
@@ -62,6 +66,7 @@ class Chain(Pattern):
             chain_found = False
             current_chain_matches: list[Match] = []
             valid_chain = True
+            resume_offset: int | None = None
             for chain_part in self.parts:
                 try:
                     chain_part_matches, raw_chain_part_matches = chain_part.matches(
@@ -78,11 +83,18 @@ class Chain(Pattern):
                         offset,
                         current_chain_matches,
                     )
-                except _InvalidChainException:
+                    if resume_offset is None and raw_chain_part_matches:
+                        resume_offset = raw_chain_part_matches[0].raw_end
+                except _InvalidChainException as invalid_chain:
                     valid_chain = False
-                    if current_chain_matches:
-                        offset = current_chain_matches[0].raw_end
+                    if resume_offset is None and invalid_chain.raw_matches:
+                        resume_offset = offset + invalid_chain.raw_matches[0].raw_end
                     break
+            if not valid_chain and resume_offset is not None:
+                # search again after the first occurrence of the first part
+                chain_found = True
+                offset = resume_offset
+                chain_input_string = input_string[offset:]
             if not chain_found:
                 break
             if current_chain_matches and valid_chain:
@@ -304,7 +316,7 @@ class ChainPart(BasePattern):
         if matches:
             max_match_index = max(m.match_index for m in matches)
         if max_match_index + 1 < self.repeater_start:
-            raise _InvalidChainException
+            raise _InvalidChainException(matches)
 
     def chain(self) -> ChainBuilder:
         """
-- 
2.43.0


From 924a1c2bb91d180d20fab941773eda493e35ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 21/36] fix: trimming a rejected chain respects its last part's
 repeater

A chain rejected by its validator could be accepted without its mandatory
last part, or empty, or with an end before that of its children. A part
match rejected by the validator for children was trimmed the same way.
---
 rebulk/chain.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 0b4cb3b..249350e 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -145,8 +145,8 @@ class Chain(Pattern):
         :rtype:
         """
         ret = super()._process_match(match, match_index, child=child)
-        if ret:
-            return True
+        if ret or child:
+            return ret
 
         if match.children:
             last_pattern = match.children[-1].pattern
@@ -157,12 +157,18 @@ class Chain(Pattern):
             if last_pattern_groups:
                 original_children = Matches(match.children)
                 original_end = match.end
+                repeater_start = max(
+                    (part.repeater_start for part in self.parts if part.pattern is last_pattern), default=0
+                )
 
-                for index in reversed(list(last_pattern_groups)):
+                # the last part is kept at least as many times as its repeater asks
+                for index in reversed(list(last_pattern_groups)[repeater_start:]):
                     last_matches = last_pattern_groups[index]
                     for last_match in last_matches:
                         match.children.remove(last_match)
-                    match.end = match.children[-1].end if match.children else match.start
+                    if not match.children:
+                        break
+                    match.end = max(child_.end for child_ in match.children)
                     ret = super()._process_match(match, match_index, child=child)
                     if ret:
                         return True
-- 
2.43.0


From f00f730ecbcc59ba3046c7624c1b1fed9314571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 22/36] fix: raw bounds of chain part matches follow their
 offset in the text

---
 rebulk/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 249350e..1ed8a0b 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -206,6 +206,10 @@ class Chain(Pattern):
                 chain_part_match.input_string = input_string
                 chain_part_match.end += offset
                 chain_part_match.start += offset
+                if chain_part_match._raw_start is not None:
+                    chain_part_match.raw_start = chain_part_match._raw_start + offset
+                if chain_part_match._raw_end is not None:
+                    chain_part_match.raw_end = chain_part_match._raw_end + offset
             if chain_part_match.children:
                 Chain._fix_matches_offset(chain_part_match.children, input_string, offset)
 
-- 
2.43.0


From 083da33ff561102f4745501d62c6daa0d93a624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 23/36] fix: functional patterns leave the dict returned by
 their function unmodified

---
 rebulk/pattern.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 58a95ea..1d7b94e 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -571,12 +571,10 @@ class FunctionalPattern(Pattern):
                 args_iterable = ret
             for args in args_iterable:
                 if isinstance(args, dict):
-                    options = args
+                    options = self._match_kwargs.copy()
+                    options.update(args)
                     options.pop("input_string", None)
                     options.pop("pattern", None)
-                    if self._match_kwargs:
-                        options = self._match_kwargs.copy()
-                        options.update(args)
                     match = Match(pattern=self, input_string=input_string, **options)
                     if match:
                         yield match
-- 
2.43.0


From eff41ce75b707eac14e07390f8ce6b12aee134a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 24/36] fix: an optional list field of a model collects all
 values

---
 rebulk/match.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 86278db..efaae5f 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -63,6 +63,16 @@ def _element_type(hint: Any) -> type | None:
     return None
 
 
+def _is_optional_list(hint: Any) -> bool:
+    """
+    True when a model field annotation is ``list[...] | None``.
+    """
+    if get_origin(hint) is not Union and get_origin(hint) is not UnionType:
+        return False
+    non_none = [arg for arg in get_args(hint) if arg is not type(None)]
+    return len(non_none) == 1 and get_origin(non_none[0]) is list
+
+
 def _contradicts(hint: Any, declared: type) -> bool:
     """
     True when a model field annotation contradicts a declared key ``value_type``.
@@ -938,7 +948,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             if get_origin(hint) is list:
                 kwargs[name] = values
             elif values:
-                kwargs[name] = values[0]
+                kwargs[name] = values if _is_optional_list(hint) else values[0]
         return model(**kwargs)
 
     def check_declared_keys(self) -> None:
-- 
2.43.0


From 7c32474369e00e0267f37c2ed8eae7257a0eef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 25/36] fix: a marker match may have children

---
 rebulk/chain.py |  6 +++---
 rebulk/match.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 1ed8a0b..f26a490 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -9,7 +9,7 @@ import itertools
 from typing import TYPE_CHECKING, Any, Literal, cast, overload
 
 from .loose import call
-from .match import Match, Matches
+from .match import ChildMatches, Match, Matches
 from .pattern import BasePattern, Pattern, filter_match_kwargs
 from .remodule import re
 
@@ -155,7 +155,7 @@ class Chain(Pattern):
             )
 
             if last_pattern_groups:
-                original_children = Matches(match.children)
+                original_children = match.children[:]
                 original_end = match.end
                 repeater_start = max(
                     (part.repeater_start for part in self.parts if part.pattern is last_pattern), default=0
@@ -197,7 +197,7 @@ class Chain(Pattern):
         return match
 
     def _chain_breaker_eval(self, matches: list[Match]) -> bool:
-        return not self.chain_breaker or not self.chain_breaker(Matches(matches))
+        return not self.chain_breaker or not self.chain_breaker(ChildMatches(matches))
 
     @staticmethod
     def _fix_matches_offset(chain_part_matches: Iterable[Match], input_string: str, offset: int) -> None:
diff --git a/rebulk/match.py b/rebulk/match.py
index efaae5f..dbd8c73 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1067,6 +1067,15 @@ class Markers(_BaseMatches):
         assert match.marker, "A non-marker match should not be added to <Markers> object"
 
 
+class ChildMatches(Matches):
+    """
+    A custom list[Match] containing the parts of a match, that may be markers as the match itself.
+    """
+
+    def _check_match(self, match: Match) -> None:
+        pass
+
+
 class Match:
     """
     Object storing values related to a single match
@@ -1120,7 +1129,7 @@ class Match:
         Children matches.
         """
         if self._children is None:
-            self._children = Matches(None, self.input_string)
+            self._children = ChildMatches(None, self.input_string)
         return self._children
 
     @children.setter
-- 
2.43.0


From 6846ec420d8d01f5449a6907f41a40ee3421fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 26/36] fix: a dependency given as a rule instance is ignored
 when the rule is not there at that priority

---
 rebulk/rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 31b339a..f3f1882 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -380,8 +380,7 @@ def toposort_rules(rules: list[CustomRule]) -> Iterator[set[CustomRule]]:
         dependencies: set[CustomRule] = set()
         if rule_dependencies:
             for dependency in rule_dependencies:
-                if inspect.isclass(dependency):
-                    dependency = class_dict.get(dependency)
+                dependency = class_dict.get(dependency if inspect.isclass(dependency) else dependency.__class__)
                 if dependency:
                     dependencies.add(dependency)
         graph[rule] = dependencies
-- 
2.43.0


From 338ff157802b59e1fa5d550916ee099f6415283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 27/36] fix: rules of one class at several priorities keep
 their registration order

---
 rebulk/rules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index f3f1882..5c6c3bf 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -316,10 +316,13 @@ class Rules(list[CustomRule]):
         :rtype:
         """
         ret: list[tuple[CustomRule, Any]] = []
+        positions = {id(rule): position for position, rule in enumerate(self)}  # rules of a same class are equal
         for priority, priority_rules in groupby(sorted(self), lambda rule: rule.priority):
             sorted_rules = toposort_rules(list(priority_rules))  # Group by dependency graph toposort
             for rules_group in sorted_rules:
-                sorted_group = sorted(rules_group, key=self.index)  # Sort rules group based on initial ordering.
+                sorted_group = sorted(
+                    rules_group, key=lambda rule: positions[id(rule)]
+                )  # Sort rules group based on initial ordering.
                 group_log_level: int | None = None
                 for rule in sorted_group:
                     if group_log_level is None or group_log_level < rule.log_level:
-- 
2.43.0


From 958be567a9ce626f8e02bce1001cde3177a7f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 28/36] fix: a rules module contributes its concrete rule
 classes only

---
 rebulk/rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 5c6c3bf..1ec3713 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -287,7 +287,12 @@ class Rules(list[CustomRule]):
         """
 
         def predicate(member: Any) -> Any:
-            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass
+            return (
+                inspect.isclass(member)
+                and member.__module__ == module.__name__
+                and issubclass(member, CustomRule)
+                and not inspect.isabstract(member)
+            )
 
         for _name, obj in inspect.getmembers(module, predicate):
             self.load_class(obj)
-- 
2.43.0


From c28a7bf1cbc8baf39c9546d6bd1f0dcdbd796f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 29/36] fix: a chain keeps the formatter of its parts unless it
 has been given one for them

---
 rebulk/chain.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index f26a490..e96836a 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -8,10 +8,12 @@ from __future__ import annotations
 import itertools
 from typing import TYPE_CHECKING, Any, Literal, cast, overload
 
+from .formatters import default_formatter
 from .loose import call
 from .match import ChildMatches, Match, Matches
 from .pattern import BasePattern, Pattern, filter_match_kwargs
 from .remodule import re
+from .utils import get_first_defined
 
 if TYPE_CHECKING:
     from collections.abc import Callable, Iterable, Iterator
@@ -52,6 +54,7 @@ class Chain(Pattern):
         else:
             self.chain_breaker = None
         self.parts: list[ChainPart] = []
+        self._own_formatters = self.formatters  # without the converters inherited from declared keys
 
     def _match(
         self,
@@ -132,6 +135,22 @@ class Chain(Pattern):
                         current_chain_matches.extend(grouped_matches)
         return chain_found, chain_input_string, offset
 
+    def _process_match_formatter(self, match: Match, child: bool = False) -> None:
+        """
+        Process match formatter from this chain configuration, keeping the formatter a part has set on its match unless
+        this chain has been given one for it.
+
+        :param match:
+        :param child:
+        :return:
+        """
+        part_formatter = match.formatter if child else None
+        super()._process_match_formatter(match, child)
+        if part_formatter is not None and part_formatter is not default_formatter:
+            keys = self._match_config_property_keys(match, child=child)
+            if get_first_defined(self._own_formatters, keys, default_formatter) is default_formatter:
+                match.formatter = part_formatter
+
     def _process_match(self, match: Match, match_index: int, child: bool = False) -> bool:
         """
         Handle a match
-- 
2.43.0


From ba96f70e2d66330c3a4ec597dcd5e867d2833fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 30/36] fix: a match is not twice among the children of a chain

---
 rebulk/chain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index e96836a..15e5d06 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -209,8 +209,9 @@ class Chain(Pattern):
         for chain_match in current_chain_matches:
             if chain_match.children:
                 for child in chain_match.children:
-                    match.children.append(child)
-            if chain_match not in match.children:
+                    if not any(child is other for other in match.children):
+                        match.children.append(child)
+            if not any(chain_match is other for other in match.children):
                 match.children.append(chain_match)
                 chain_match.parent = match
         return match
-- 
2.43.0


From 5535afaf55f84bcd116d2d63ac3f8e158cf28eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 31/36] fix: a match keeps its parent when both are visible in
 a chain

---
 rebulk/chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 15e5d06..5f95cd2 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -213,6 +213,7 @@ class Chain(Pattern):
                         match.children.append(child)
             if not any(chain_match is other for other in match.children):
                 match.children.append(chain_match)
+            if not any(chain_match.parent is other for other in current_chain_matches):
                 chain_match.parent = match
         return match
 
-- 
2.43.0


From c91c9e7ef13dbb6c17b76b8033b9cf232d3e5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 32/36] fix: project matches onto dataclasses having fields
 their constructor does not take

---
 rebulk/match.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index dbd8c73..766fca3 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -926,9 +926,11 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if dataclasses.is_dataclass(model):
             hints = get_type_hints(model)
             field_names: Iterable[str] = [data_field.name for data_field in dataclasses.fields(model)]
+            not_settable = {data_field.name for data_field in dataclasses.fields(model) if not data_field.init}
         elif is_typeddict(model):
             hints = get_type_hints(model)
             field_names = hints
+            not_settable = set()
         elif isinstance(model, type):
             if not self._delegate:
                 raise LookupError(f"no match available to build a {model.__name__}")
@@ -944,6 +946,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     f"{model.__name__} field {name!r} typed {hint!r} contradicts "
                     f"declared key {name!r} of value_type {declared.value_type!r}"
                 )
+            if name in not_settable:
+                continue
             values = [match.value for match in self._name_dict.get(name, ())]
             if get_origin(hint) is list:
                 kwargs[name] = values
-- 
2.43.0


From 1a1cf644bb8d2b0541087a2a590f13a89f648fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:48 +0000
Subject: [PATCH 33/36] fix: a chain part with several expressions takes them
 in input order

---
 rebulk/chain.py   | 22 ++++++++++++++++++++++
 rebulk/pattern.py |  2 +-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 5f95cd2..24d4944 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -311,6 +311,8 @@ class ChainPart(BasePattern):
         with_raw_matches: bool = False,
     ) -> list[Match] | tuple[list[Match], list[Match]]:
         matches, raw_matches = self.pattern.matches(input_string, context=context, with_raw_matches=True)
+        if len(self.pattern.patterns) > 1:
+            matches, raw_matches = self._merge_alternatives(matches, raw_matches)
 
         matches = self._truncate_repeater(matches, input_string)
         raw_matches = self._truncate_repeater(raw_matches, input_string)
@@ -322,6 +324,26 @@ class ChainPart(BasePattern):
 
         return matches
 
+    @staticmethod
+    def _merge_alternatives(matches: list[Match], raw_matches: list[Match]) -> tuple[list[Match], list[Match]]:
+        """
+        Make a single sequence of occurrences, in input order and without overlap, from those of several expressions.
+        """
+        indexes: dict[int, int] = {}
+        end = 0
+        for raw_match in sorted(raw_matches, key=lambda m: m.raw_start):
+            if raw_match.raw_start >= end:
+                indexes[raw_match.match_index] = len(indexes)
+                end = raw_match.raw_end
+
+        matches = [m for m in matches if m.match_index in indexes]
+        raw_matches = [m for m in raw_matches if m.match_index in indexes]
+        affected = {id(m): m for m in itertools.chain(matches, *([m, *m.children] for m in raw_matches))}
+        for match in affected.values():
+            match.match_index = indexes[match.match_index]
+
+        return sorted(matches, key=lambda m: m.match_index), sorted(raw_matches, key=lambda m: m.match_index)
+
     def _truncate_repeater(self, matches: list[Match], input_string: str) -> list[Match]:
         if not matches:
             return matches
diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 1d7b94e..2511dbc 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -197,7 +197,7 @@ class Pattern(BasePattern, metaclass=ABCMeta):
         raw_matches: list[Match] = []
 
         for pattern in self.patterns:
-            for match_index, match in enumerate(self._match(pattern, input_string, context)):
+            for match_index, match in enumerate(self._match(pattern, input_string, context), len(raw_matches)):
                 raw_matches.append(match)
                 matches.extend(self._process_matches(match, match_index))
 
-- 
2.43.0


From acd42cc9fbba661eaf28e078c19e7d76a29dc79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:12 +0000
Subject: [PATCH 34/36] fix: a chain part repetition without visible matches
 does not hide the following ones

---
 rebulk/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 24d4944..b4542d5 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -314,8 +314,8 @@ class ChainPart(BasePattern):
         if len(self.pattern.patterns) > 1:
             matches, raw_matches = self._merge_alternatives(matches, raw_matches)
 
-        matches = self._truncate_repeater(matches, input_string)
         raw_matches = self._truncate_repeater(raw_matches, input_string)
+        matches = [m for m in matches if m.match_index < len(raw_matches)]
 
         self._validate_repeater(raw_matches)
 
-- 
2.43.0


From be0e2655bf3ff3fa1d888cf80cde86fb55b499bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:13 +0000
Subject: [PATCH 35/36] fix: merge the alternatives of a chain part when one of
 their matches is refused by a validator

---
 rebulk/chain.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index b4542d5..352cd9e 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -331,16 +331,19 @@ class ChainPart(BasePattern):
         """
         indexes: dict[int, int] = {}
         end = 0
-        for raw_match in sorted(raw_matches, key=lambda m: m.raw_start):
+        for index, raw_match in sorted(enumerate(raw_matches), key=lambda indexed: indexed[1].raw_start):
             if raw_match.raw_start >= end:
-                indexes[raw_match.match_index] = len(indexes)
+                indexes[index] = len(indexes)
                 end = raw_match.raw_end
 
         matches = [m for m in matches if m.match_index in indexes]
-        raw_matches = [m for m in raw_matches if m.match_index in indexes]
-        affected = {id(m): m for m in itertools.chain(matches, *([m, *m.children] for m in raw_matches))}
-        for match in affected.values():
-            match.match_index = indexes[match.match_index]
+        merged = [(m, indexes[m.match_index]) for m in matches]
+        for index, raw_match in enumerate(raw_matches):
+            if index in indexes:
+                merged.extend((m, indexes[index]) for m in (raw_match, *raw_match.children))
+        raw_matches = [m for index, m in enumerate(raw_matches) if index in indexes]
+        for match, merged_index in merged:
+            match.match_index = merged_index
 
         return sorted(matches, key=lambda m: m.match_index), sorted(raw_matches, key=lambda m: m.match_index)
 
-- 
2.43.0


From e0dc2b34ededd9513472ff3f374ba1181418867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:44 +0000
Subject: [PATCH 36/36] fix: index the matches given by match processors, a
 chain lost or mixed up the repetitions of a part with them

---
 rebulk/pattern.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 2511dbc..353a511 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -198,6 +198,7 @@ class Pattern(BasePattern, metaclass=ABCMeta):
 
         for pattern in self.patterns:
             for match_index, match in enumerate(self._match(pattern, input_string, context), len(raw_matches)):
+                self._process_match_index(match, match_index)
                 raw_matches.append(match)
                 matches.extend(self._process_matches(match, match_index))
 
@@ -349,6 +350,11 @@ class Pattern(BasePattern, metaclass=ABCMeta):
         if not match:
             return
 
+        # a match given by the processor stands for the one it replaces
+        self._process_match_index(match, match_index)
+        for child in match.children:
+            self._process_match_index(child, match_index)
+
         if (self._should_include_parent or self.private_parent) and match.name not in self.ignore_names:
             yield match
         if self._should_include_children or self.private_children:
-- 
2.43.0

