From 2d8a806416db3377d31945bfd8598e333e336828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 01/95] fix: escape the field when it becomes the whole path

path.prepend/append returned the field unescaped when the path was empty, so
a field holding a delimiter, quote or backslash did not survive a later split
(paths of errors and of iterative_select could not be followed).
---
 marsh/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/path.py b/marsh/path.py
index e69d458..1317f94 100644
--- a/marsh/path.py
+++ b/marsh/path.py
@@ -144,7 +144,7 @@ def prepend(
         The prepended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
@@ -171,7 +171,7 @@ def append(
         The appended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
-- 
2.43.0


From ddf5cff8c2159b71c454ee6c55f13312855d105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 02/95] fix: pass combine on when element.override descends
 into a path

'path+=value', 'path+@config' and override(..., combine=True) replaced the
previous value for every path but the empty one.
---
 marsh/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/element.py b/marsh/element.py
index c66f366..56ca2e0 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -245,6 +245,7 @@ def override(
                 element=element.get(field, {}),
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
     elif marsh.utils.is_sequence(element):
         try:
@@ -266,6 +267,7 @@ def override(
                 element=element[index],
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
         element = tuple(element)
     else:
-- 
2.43.0


From 0014dab53ac1e89ce5a725f1ba93e5e1d5cd0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 03/95] fix: keep key order when merging mappings

The keys went through a set, so the order of a merged config depended on
the hash seed of the process.
---
 marsh/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/element.py b/marsh/element.py
index 56ca2e0..f5a9ead 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -146,7 +146,7 @@ def _merge(
                 element_b.get(key, marsh.MISSING),
                 concatenate=concatenate,
             )
-            for key in set(element_a).union(element_b)
+            for key in {**dict.fromkeys(element_a), **dict.fromkeys(element_b)}
         }
     elif (
         concatenate
-- 
2.43.0


From 092d3027c3cf57eb033484898368e911b6d6365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 04/95] fix: parse integers without a detour over float

Integers above 2**53 lost precision.
---
 marsh/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index cf832f7..f93789b 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -414,6 +414,10 @@ def terminal(
         raise err
     if quoted or not value:
         return value
+    try:
+        return int(value)
+    except ValueError:
+        pass
     try:
         fl_value = float(value)
         if fl_value.is_integer():
-- 
2.43.0


From 5f377ccd138534464f08bc85184a549fde98ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 05/95] fix: report an unterminated quote as a ParseError

Running out of input inside quotes raised a bare ValueError from pop().
---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index f93789b..f9d64dc 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -355,7 +355,7 @@ def string(
         chars: List[str] = []
         if peek(source) in QUOTE_CHARACTERS:
             quote = pop(source)
-        while (char := peek(source)) not in terminal_chars or quote:
+        while source and ((char := peek(source)) not in terminal_chars or quote):
             if char == ESCAPE:
                 if len(source) < 2:
                     raise ParseError(
-- 
2.43.0


From 26941c56d35501a507595bc4c8b883dc3629b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 06/95] fix: write configs to stdout as plain YAML

yaml.dump wrote sequences as '!!python/tuple', which no safe loader (nor
marsh.config.load) reads back.
---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 93c492b..9389bdc 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -343,7 +343,7 @@ def write(
             If not specified, stdout is used.
     """
     if path == '-':
-        yaml.dump(config, sys.stdout)
+        yaml.safe_dump(config, sys.stdout)
     else:
         ConfigSchema(path).dump(config)
 
-- 
2.43.0


From df70e0835311f99156ba65ab24b1af5ea454d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 07/95] fix: find extension-less configs in the working
 directory

A bare config name has an empty dirname, which is no directory.
---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 9389bdc..18c09d0 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -184,7 +184,7 @@ def find_config(
                 f'could not find config {target} ',
             )
         return target
-    dpath = os.path.dirname(target)
+    dpath = os.path.dirname(target) or os.curdir
     if not os.path.isdir(dpath):
         raise marsh.errors.ConfigFileError(
             f'unable to browse directory "{dpath}" '
-- 
2.43.0


From df0b7dc800b17e396f4facf1576659b9f2d7ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 08/95] fix: show the configs of subdirectories in config.tree

Directories with a single config were left out, and for the others only the
name of the directory was kept instead of its subtree.
---
 marsh/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index 18c09d0..8d6ad23 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -252,8 +252,8 @@ def tree(
     for name in os.listdir(path):
         if os.path.isdir(os.path.join(path, name)):
             subtree = tree(os.path.join(path, name))
-            if subtree.count('\n') > 1:
-                subtrees.append(name)
+            if '\n' in subtree:
+                subtrees.append(subtree)
         else:
             if config_type_is_supported(name):
                 configs.append(name)
-- 
2.43.0


From 44c456b760f2a854a95ae1841c62b2c80c39a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 09/95] fix: restore the working directory when an entry point
 raises

---
 marsh/entry_point.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 02ac22a..79f11f5 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -229,9 +229,11 @@ class EntryPoint:
             with marsh.errors.maybe_handle_error(handle_create_dir_error):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
-        yield
-        if prev_path is not None:
-            os.chdir(prev_path)
+        try:
+            yield
+        finally:
+            if prev_path is not None:
+                os.chdir(prev_path)
 
     def maybe_print_help(
         self,
-- 
2.43.0


From 3c6a3de236c1e763752545cbbc774754965aad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 10/95] fix: keep the subclass when casting to a subclass of
 int

A str or float input was converted to a plain int, so e.g. an IntEnum was
unmarshaled into an int that need not even be one of its values.
---
 marsh/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8f0338a..63ee9ac 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2092,9 +2092,9 @@ def cast_primitive(
     if issubclass(type_, bool):
         return primitive_to_bool(value)
     if issubclass(type_, int) and isinstance(value, str):
-        return str_to_int(value)
-    if issubclass(type_, int) and isinstance(value, float):
-        return float_to_int(value)
+        value = str_to_int(value)
+    elif issubclass(type_, int) and isinstance(value, float):
+        value = float_to_int(value)
     return type_(value)
 
 
-- 
2.43.0


From 2b40f6229399105dd5e6c03dbd8fb69df185067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 11/95] fix: marshal subclasses of str to their str value

str() of an enum with str as mixin is its qualified name, which can not be
unmarshaled.
---
 marsh/schema/types/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/primitive.py b/marsh/schema/types/primitive.py
index e8566e6..fe355c3 100644
--- a/marsh/schema/types/primitive.py
+++ b/marsh/schema/types/primitive.py
@@ -44,7 +44,7 @@ class PrimitiveMarshalSchema(marsh.schema.MarshalSchema):
         elif isinstance(self.value, float):
             return float(self.value)
         else:
-            return str(self.value)
+            return str.__str__(self.value)
 
 
 @marsh.schema.register
-- 
2.43.0


From 53cde9e7326bcc0eb41e6c469d0de6625089461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 12/95] fix: prefer the name of an enum member over the value
 of another

A marshaled member was unmarshaled into an earlier member with that value.
---
 marsh/schema/types/enum.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/marsh/schema/types/enum.py b/marsh/schema/types/enum.py
index c07abf6..021e8b1 100644
--- a/marsh/schema/types/enum.py
+++ b/marsh/schema/types/enum.py
@@ -43,6 +43,18 @@ class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
             'enum values (the name or value).'
         )
 
+    def unmarshal(
+        self,
+        element: marsh.element.ElementType,
+    ) -> _E:
+        # enums are marshaled into their name, which may
+        # equal the value of some other (earlier) member.
+        if isinstance(element, str):
+            for member in self.value:  # type: ignore
+                if member.name == element:
+                    return member
+        return super().unmarshal(element)
+
 
 @marsh.schema.register
 class EnumValueMarshalSchema(marsh.schema.MarshalSchema):
-- 
2.43.0


From ae68edd829cf09bbfcb59abf912b9293f9e413b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 13/95] fix: accept the whitespace that the slice syntax allows

'- 5:' and '1: ' matched the slice pattern but raised ValueError.
---
 marsh/schema/types/slice.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index 53819b0..b4117dd 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -114,11 +114,8 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
                     element=element,
                     type=self.value,
                 )
-            args = tuple(
-                int(index) if index else None
-                for index
-                in element.split(':')
-            )
+            indices = (''.join(index.split()) for index in element.split(':'))
+            args = tuple(int(index) if index else None for index in indices)
         if not args:
             return slice(None)
         try:
-- 
2.43.0


From 96dfe8822756133f1461e11a738013bab0a90981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 14/95] fix: use the default of a missing datetime

---
 marsh/schema/types/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 4899039..8dfd99d 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -114,6 +114,8 @@ class DatetimeUnmarshalSchema(
         element: marsh.element.ElementType,
     ) -> Union[datetime.time, datetime.date]:
         if marsh.utils.is_missing(element):
+            if self.has_default():
+                return self.get_default()
             raise marsh.errors.MissingValueError(
                 type=self.value,
             )
-- 
2.43.0


From 342fa96998159e7823f55769461bf43ae72fa349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 15/95] fix: report an out of range timestamp as an
 UnmarshalError

---
 marsh/schema/types/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 8dfd99d..e481aec 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -137,7 +137,7 @@ class DatetimeUnmarshalSchema(
                 ts,
                 datetime.timezone.utc,
             )
-        except ValueError:
+        except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
                 dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
-- 
2.43.0


From bc97769bd90563dcd6694f791ab68e376c9f4ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 16/95] fix: read ISO formatted datetimes and times exactly

Not every UTC offset is understood by dateparser and times lost their
timezone, so marshaled values could not be unmarshaled.
---
 marsh/schema/types/datetime.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index e481aec..b8d7a69 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -139,7 +139,16 @@ class DatetimeUnmarshalSchema(
             )
         except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
-                dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
+                # marshaled values are on ISO format
+                if self.value == datetime.time:
+                    try:
+                        return datetime.time.fromisoformat(element)
+                    except ValueError:
+                        pass
+                try:
+                    dt = datetime.datetime.fromisoformat(element)
+                except ValueError:
+                    dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
             raise marsh.errors.UnmarshalError(
                 'failed to parse timestamp',
-- 
2.43.0


From a160a4d3d2fdc4ad2b7d601eaf8da2b137849e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 17/95] fix: compare the content of cached hash keys

The keys never held their value, so any two keys with equal hashes were
equal and e.g. -1 and -2 shared one slot of a ValueCache.
---
 marsh/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index 63ee9ac..8c6bd9d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -493,6 +493,7 @@ class _CachedHashKey(list):
         value,
     ):
         self._hash = hash(value)
+        super().__init__(value)
 
     def __hash__(self):
         return self._hash
-- 
2.43.0


From 0fb53d8beaf20c118178fc1b56180040da1632ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 18/95] fix: keep SafeDict consistent when unhashable keys are
 set or deleted

Setting an existing unhashable key added it a second time and deleting keys
left stale indices in the order, breaking iteration.
---
 marsh/utils.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8c6bd9d..6d47450 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -591,6 +591,7 @@ class SafeDict(MutableMapping[_K, _V]):
             for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
                 if k == key:
                     self._unhashable_cache[-i] = (key, value)
+                    break
             else:
                 self._order.append((False, len(self._unhashable_cache)))
                 self._unhashable_cache.append((key, value))
@@ -607,10 +608,7 @@ class SafeDict(MutableMapping[_K, _V]):
                 if self._unhashable_cache:
                     for key_idx, k in enumerate(self._hashable_cache):
                         if k == key:
-                            for order_idx, (hashable, idx) in enumerate(self._order):
-                                if hashable and idx == key_idx:
-                                    self._order.pop(order_idx)
-                                    break
+                            self._remove_from_order(True, key_idx)
                             break
                 del self._hashable_cache[key]
                 return
@@ -618,13 +616,24 @@ class SafeDict(MutableMapping[_K, _V]):
             for key_idx, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
                 if k == key:
                     self._unhashable_cache.pop(-key_idx)
-                    for order_idx, (hashable, idx) in enumerate(self._order):
-                        if not hashable and idx == key_idx:
-                            self._order.pop(order_idx)
-                            break
+                    self._remove_from_order(
+                        False,
+                        len(self._unhashable_cache) + 1 - key_idx,
+                    )
                     return
         raise KeyError(key)
 
+    def _remove_from_order(
+        self,
+        hashable: bool,
+        index: int,
+    ) -> None:
+        self._order = [
+            (h, i - 1 if h == hashable and i > index else i)
+            for h, i in self._order
+            if (h, i) != (hashable, index)
+        ]
+
     def _ordered_iter(
         self,
         reverse: bool,
-- 
2.43.0


From 26f1750f54a83d9c562b4fb819b5cf4ee883cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:14 +0000
Subject: [PATCH 19/95] fix: detect values that already exist in a
 PriorityOrder

Wrappers were compared instead of values, so duplicates were never reported
and replace=True never replaced anything.
---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 6d47450..7e76009 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1265,7 +1265,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
 
             # does the value to be added already exist?
             for i in range(len(self._values)):
-                if self._values[i] == wrapped:
+                if self._values[i].value == wrapped.value:
                     if replace:
                         del self._values[i]
                         break
-- 
2.43.0


From 3d1e4a6b60aeb436c15f6422206ec0af5362e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 20/95] fix: keep relative priorities when a PriorityOrder is
 reloaded

The hashes of the related values were hashed once more, which changes those
that do not fit the hash modulus (e.g. the hash of most strings).
---
 marsh/utils.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 7e76009..97431d9 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1215,12 +1215,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         values = sorted(self._values, key=lambda x: x.index)
         del self._values[:]
         for value in values:
-            self.add(
-                value=value.value,
-                priority=value.priority,
-                lower_priority=value.relative_priority.lower,
-                higher_priority=value.relative_priority.higher,
-            )
+            self._insert(value)
 
     @overload
     def add(
@@ -1273,24 +1268,30 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                         f'{wrapped} already exists.',
                     )
 
-            # find insertion index for value based on priorities.
-            # circular priorities with a length larger than 1 do
-            # not raise an error.
-            idx = 0
-            for i, position in enumerate(self._values):
-                if wrapped.relative_priority > position.relative_priority:
-                    break
-                if (
-                    wrapped.relative_priority < position.relative_priority
-                    or wrapped.priority < position.priority
-                ):
-                    idx = i + 1
-            self._values.insert(idx, wrapped)
+            self._insert(wrapped)
             return value
         if value is None:
             return wrapper
         return wrapper(value)
 
+    def _insert(
+        self,
+        wrapped: 'PriorityOrder._WrappedValue[_T]',
+    ) -> None:
+        # find insertion index for value based on priorities.
+        # circular priorities with a length larger than 1 do
+        # not raise an error.
+        idx = 0
+        for i, position in enumerate(self._values):
+            if wrapped.relative_priority > position.relative_priority:
+                break
+            if (
+                wrapped.relative_priority < position.relative_priority
+                or wrapped.priority < position.priority
+            ):
+                idx = i + 1
+        self._values.insert(idx, wrapped)
+
 
 class WeakTypeCache:
     """A type cache that holds its values as weak references.
-- 
2.43.0


From d9e4eab1dc356b37f865fc1327ddebee12cae407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 21/95] fix: let IterableFromIterator be iterated concurrently

Interleaved iterations lost the items consumed by one another, and threads
could fail with 'generator already executing'.
---
 marsh/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 97431d9..0831434 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -9,6 +9,7 @@ import inspect
 import os
 import shutil
 import sys
+import threading
 import weakref
 import types
 import typing
@@ -982,14 +983,23 @@ class IterableFromIterator(Generic[_T]):
     ) -> None:
         self._iter = iterator
         self._cache: list = []
+        self._lock = threading.RLock()
 
     def __iter__(
         self,
     ) -> Iterator[_T]:
-        yield from self._cache
-        for item in self._iter:
-            self._cache.append(item)
-            yield item
+        index = 0
+        while True:
+            if index >= len(self._cache):
+                with self._lock:
+                    # another iteration may have consumed the next item
+                    if index >= len(self._cache):
+                        try:
+                            self._cache.append(next(self._iter))
+                        except StopIteration:
+                            return
+            yield self._cache[index]
+            index += 1
 
     def __bool__(
         self,
-- 
2.43.0


From bc2b75301f594970193a25d1cab741ee07cd5fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 22/95] fix: iterate over a snapshot in WeakTypeCache

Types added while iterating (e.g. by another thread) raised RuntimeError.
---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 0831434..2225b7f 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1332,7 +1332,7 @@ class WeakTypeCache:
     ) -> Iterator[Any]:
         data = getattr(self._types, 'data', None)
         if isinstance(data, dict):
-            for ref in reversed(data):
+            for ref in tuple(reversed(data)):
                 type_ = ref()
                 if type_ is not None:
                     yield type_
-- 
2.43.0


From 19a5962821c5e44c16bdef16e074b5cb3ec85d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 23/95] fix: return the cache info of the unmarshal schema
 registry

A stray comma made it a tuple holding the method.
---
 marsh/schema/core/unmarshal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d821b95..ee67f83 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -116,7 +116,7 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
     def cache_info(
         self,
     ) -> marsh.utils.CacheInfo:
-        return self.match.cache_info,  # type: ignore
+        return self.match.cache_info()  # type: ignore
 
     @overload
     def register(
-- 
2.43.0


From 199cf356ba2a59b514493d6e7a5a44739acb0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 24/95] fix: match types against schemas registered after their
 first use

The build cache was kept (and the match cache only cleared before adding), so
a new schema was ignored for every type that had been unmarshaled before.
---
 marsh/schema/core/unmarshal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index ee67f83..e5dc636 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -157,14 +157,18 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
         Type['UnmarshalSchema'],
     ]:
         def wrapper(_schema):
-            self.cache_clear()
-            return self.priority.add(
+            added = self.priority.add(
                 _schema,
                 priority=priority,
                 lower_priority=lower_priority,
                 higher_priority=higher_priority,
                 replace=replace,
             )
+            self.cache_clear()
+            # schemas that are already built may have
+            # been matched differently by now.
+            base.caches['marsh.schema.UnmarshalSchema.__new__'].cache_clear()
+            return added
         if schema is None:
             return wrapper
         return wrapper(schema)
-- 
2.43.0


From 048a2a583390146dd97c4389aca0f6443270bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 25/95] fix: end the recursion guard of a type when it is built

Every later build of that type became a lazy recursive reference, which
e.g. has no field documentation.
---
 marsh/schema/core/unmarshal.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index e5dc636..d0a93ee 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -265,7 +265,14 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         result = cls.registry.match(value)
         result.insert(0, RecursiveReferenceUnmarshalSchema)
         recursive_cache[value] = result
-        return result[1:].build(value, *args, **kwargs)
+        try:
+            return result[1:].build(value, *args, **kwargs)
+        finally:
+            # only references from within the type are recursive
+            try:
+                del recursive_cache[value]
+            except KeyError:
+                pass
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
-- 
2.43.0


From c8db332ff677801ce737c0df9cf8dc86c4914d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 26/95] fix: forget matched types when namespaces are added or
 removed

A type that had been used before its namespace was created was never matched
against it.
---
 marsh/schema/namespace.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 123187a..4ee0fca 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -138,6 +138,16 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         name,
     ) -> None:
         del self._namespaces[name]
+        self._forget_schemas()
+
+    def _forget_schemas(
+        self,
+    ) -> None:
+        # which types are matched by a namespace has changed
+        self.cache_clear(full=True)
+        for namespace in self._namespaces.values():
+            namespace._schemas.clear()
+        marsh.schema.UnmarshalSchema.cache_clear()
 
     def __contains__(
         self,
@@ -224,6 +234,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
                 base=base,
             )
         )
+        self._forget_schemas()
         return namespace
 
     def cache_clear(
-- 
2.43.0


From dd1523f5a90ca472bf4444f5507327c967d68614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 27/95] fix: search a snapshot of namespaces and their
 components

The lazily consumed results of a search raised RuntimeError once a namespace
or component was added.
---
 marsh/schema/namespace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 4ee0fca..66be914 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -181,7 +181,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         Returns:
             Iterator of result.
         """
-        for namespace in self.values():
+        for namespace in tuple(self.values()):
             for name in namespace.find_subclasses(cls):
                 yield name, namespace
 
@@ -200,7 +200,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         Returns:
             Iterator of result.
         """
-        for namespace in self._namespaces.values():
+        for namespace in tuple(self._namespaces.values()):
             try:
                 if issubclass(cls, namespace.base):
                     yield namespace
@@ -508,7 +508,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         Returns:
             Iterator of string names.
         """
-        for name, component in self.components.items():
+        for name, component in tuple(self.components.items()):
             try:
                 if issubclass(component, cls):
                     yield name
-- 
2.43.0


From d20cb9973cbeae57feac24391451b1e90197702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 28/95] fix: support unions created with the | operator

---
 marsh/schema/core/unmarshal.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d0a93ee..5ce0249 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -2,6 +2,7 @@ import collections
 import dataclasses
 import importlib
 import threading
+import types
 from typing import (
     Any,
     Callable,
@@ -30,6 +31,10 @@ _RelativePriority: TypeAlias = \
     marsh.utils.PriorityOrder.RelativePriority[Type['UnmarshalSchema']]
 
 
+# type of `X | Y` in python 3.10+
+union_type = getattr(types, 'UnionType', None)
+
+
 skip_cache_types = {
     int,
     float,
@@ -99,6 +104,8 @@ def resolve_type(
                 cache,
             )
             return resolve_type(value, cache)
+        if union_type is not None and isinstance(value, union_type):
+            return Union[value.__args__]
     except marsh.errors.MarshError:
         raise
     except Exception:
-- 
2.43.0


From 0b64b9681a02fd2a3b85e2636ec57de35bc3c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 29/95] fix: evaluate forward references in the module of known
 types

ForwardRef._evaluate() requires one more argument since python 3.9, the
TypeError was swallowed and only types already seen could be referenced.
---
 marsh/schema/core/unmarshal.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 5ce0249..5936850 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -58,10 +58,7 @@ def resolve_forward_ref(
         mod, _, name = name.rpartition('.')
     if mod:
         try:
-            return ref._evaluate(
-                vars(importlib.import_module(mod)),
-                None,
-            )
+            return eval(name, vars(importlib.import_module(mod)))
         except Exception:
             pass
     for type_ in cache:
@@ -69,13 +66,13 @@ def resolve_forward_ref(
             return type_
         if hasattr(type_, '__module__'):
             try:
-                return ref._evaluate(
+                return eval(
+                    name,
                     vars(
                         importlib.import_module(
                             type_.__module__ + (f'.{mod}' if mod else ''),
                         ),
                     ),
-                    None,
                 )
             except Exception:
                 pass
-- 
2.43.0


From f8709355ed57d1565501d69378bab583636a041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 30/95] fix: do not share schemas between equal but different
 types and defaults

list[Union[int, str]] equals list[Union[str, int]] and a default of 1 equals
True and 1.0, so the schema (and default) of whichever came first was used.
---
 marsh/schema/core/unmarshal.py | 38 +++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 5936850..2c7b217 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -10,6 +10,7 @@ from typing import (
     ForwardRef,
     Generic,
     Iterable,
+    Literal,
     Mapping,
     NamedTuple,
     Optional,
@@ -17,6 +18,7 @@ from typing import (
     Type,
     TypeVar,
     Union,
+    get_args,
     get_origin,
     overload,
 )
@@ -48,6 +50,36 @@ skip_cache_types = {
 }
 
 
+# Values of these types are only equal to values of the same type if
+# they are interchangeable. As an example ``(1,)``, ``(1.0,)`` and
+# ``(True,)`` are equal but may not replace one another as a default.
+identified_default_types = {
+    type(None),
+    bool,
+    int,
+    str,
+}
+
+
+def is_order_sensitive(
+    value: Any,
+) -> bool:
+    """Evaluates if types that equal each other may behave differently.
+
+    The order of the arguments in a union or literal matters when
+    unmarshaling but is ignored when comparing them.
+
+    Arguments:
+        value: The type to evaluate.
+
+    Returns:
+        ``True`` if the type is or contains a union or literal.
+    """
+    if get_origin(value) in (Union, Literal, union_type):
+        return True
+    return any(map(is_order_sensitive, get_args(value)))
+
+
 def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
@@ -237,7 +269,10 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if get_origin(value) is Union:
+        if (
+            is_order_sensitive(value)
+            or type(kwargs.get('default')) not in identified_default_types
+        ):
             return cls._build(
                 value=value,
                 *args,
@@ -280,6 +315,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
+        typed=True,
         safe=True,
         binding='ignore',
     )
-- 
2.43.0


From a07b117226c225a18905c3d2353ce31bf4545dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 31/95] fix: do not modify the cached match of a type

Each build added another recursive reference in front of the schema.
---
 marsh/schema/core/unmarshal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 2c7b217..9924060 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -301,7 +301,8 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
                 return recursive_cache[value].build(value, *args, **kwargs)
             except KeyError:
                 pass
-        result = cls.registry.match(value)
+        # the match is cached and must not be modified
+        result = base.SchemaSelection(cls.registry.match(value))
         result.insert(0, RecursiveReferenceUnmarshalSchema)
         recursive_cache[value] = result
         try:
-- 
2.43.0


From 53efb4ddfdda9a946dcb01e1ba4468a0e94386db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 32/95] fix: keep annotations of resolved type hints

The annotations of NamedTuple and TypedDict fields, as well as those written
as strings for dataclasses and callables, were dropped together with their
validation.
---
 marsh/schema/template/callable.py |  9 ++++++---
 marsh/schema/types/dataclass.py   |  7 +++++--
 marsh/schema/types/namedtuple.py  |  4 ++--
 marsh/schema/types/typeddict.py   | 20 +++++++++++++++++++-
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 24911c9..3ee868b 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -4,8 +4,8 @@ from typing import (
     Any,
     ForwardRef,
     TypeVar,
-    get_type_hints,
 )
+from typing_extensions import get_type_hints
 
 import marsh
 from . import structured
@@ -31,9 +31,12 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             )
         try:
             if inspect.isclass(self.value):
-                annotations = get_type_hints(self.value.__init__)
+                annotations = get_type_hints(
+                    self.value.__init__,
+                    include_extras=True,
+                )
             else:
-                annotations = get_type_hints(self.value)
+                annotations = get_type_hints(self.value, include_extras=True)
         except Exception:
             annotations = {}
         positional = {}
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 2666e2b..88d70f1 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -7,8 +7,8 @@ from typing import (
     Optional,
     Tuple,
     TypeVar,
-    get_type_hints,
 )
+from typing_extensions import get_type_hints
 
 import marsh
 
@@ -94,7 +94,10 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         try:
-            annotations = get_type_hints(marsh.utils.get_type(self.value))
+            annotations = get_type_hints(
+                marsh.utils.get_type(self.value),
+                include_extras=True,
+            )
         except Exception:
             annotations = {}
         schemas = {}
diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index 38a2058..6988f79 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -4,8 +4,8 @@ from typing import (
     Any,
     Optional,
     TypeVar,
-    get_type_hints,
 )
+from typing_extensions import get_type_hints
 
 import marsh
 from . import (
@@ -73,7 +73,7 @@ class NamedTupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[
     ) -> None:
         super().__init__(*args, **kwargs)
         schemas = {}
-        annotations = get_type_hints(self.value)
+        annotations = get_type_hints(self.value, include_extras=True)
         for field in self.value._fields:
             with marsh.errors.prepend(field):
                 schemas[field] = marsh.schema.UnmarshalSchema(
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 8685153..9fb598c 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -4,6 +4,12 @@ from typing import (
     Any,
     Sequence,
     TypeVar,
+    get_args,
+    get_origin,
+)
+from typing_extensions import (
+    NotRequired,
+    Required,
     get_type_hints,
 )
 
@@ -58,7 +64,11 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         self._sentinel = _Sentinel()
-        annotations = get_type_hints(self.value)
+        annotations = {
+            name: self._strip_qualifiers(type_)
+            for name, type_
+            in get_type_hints(self.value, include_extras=True).items()
+        }
         self.schemas = types.MappingProxyType(
             {
                 **{
@@ -77,6 +87,14 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             },
         )
 
+    @staticmethod
+    def _strip_qualifiers(
+        type_: Any,
+    ) -> Any:
+        while get_origin(type_) in (Required, NotRequired):
+            type_ = get_args(type_)[0]
+        return type_
+
     @classmethod
     def match(
         cls,
-- 
2.43.0


From f8c19080f4d3ee0121ac09f8c1f14369ff914fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 33/95] fix: never pass items of a sequence as keyword-only
 arguments

They were passed by position, raising TypeError or, for dataclasses,
assigning the items to the wrong fields.
---
 marsh/schema/template/callable.py   |  3 +++
 marsh/schema/template/structured.py |  5 ++++-
 marsh/schema/types/dataclass.py     | 14 ++++++++++----
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 3ee868b..38f8d16 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -41,6 +41,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             annotations = {}
         positional = {}
         keyword = {}
+        keyword_only = []
         var_positional = None
         var_keyword = None
         for name, param in sig.parameters.items():
@@ -62,11 +63,13 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 keyword[name] = schema
             elif param.kind == param.KEYWORD_ONLY:
                 keyword[name] = schema
+                keyword_only.append(name)
             elif param.kind == param.VAR_POSITIONAL:
                 var_positional = (name, schema)
             elif param.kind == param.VAR_KEYWORD:
                 var_keyword = (name, schema)
         self.positional = tuple(positional)
+        self.keyword_only = tuple(keyword_only)
         schemas = {}
         schemas.update(positional)
         if var_positional:
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 20294ef..e2d8ddc 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -31,6 +31,9 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     positional: Sequence[str] = ()
     """Names of attributes that can only be used as positional arguments."""
 
+    keyword_only: Sequence[str] = ()
+    """Names of attributes that can only be used as keyword arguments."""
+
     def __str__(
         self,
     ) -> str:
@@ -203,7 +206,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     args.extend(default_args)
                     default_args = []
                 else:
-                    if element_list:
+                    if element_list and name not in self.keyword_only:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
                     else:
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 88d70f1..82133f3 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -101,6 +101,10 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         except Exception:
             annotations = {}
         schemas = {}
+        fields = (
+            dataclasses.fields(self.value)
+            + get_init_var_fields(self.value)
+        )
 
         def resolve_type(
             type_: Any,
@@ -128,10 +132,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                 return resolve_type(type_.type)
             return type_
 
-        for field in (
-            dataclasses.fields(self.value)
-            + get_init_var_fields(self.value)
-        ):
+        for field in fields:
             if not field.init:
                 continue
             with marsh.errors.prepend(field.name):
@@ -149,6 +150,11 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                         else field.default_factory
                     ),
                 )
+        self.keyword_only = tuple(
+            field.name
+            for field in fields
+            if getattr(field, 'kw_only', False) is True
+        )
         self.schemas = types.MappingProxyType(schemas)
 
     @classmethod
-- 
2.43.0


From 197ac46047246edae06068302c6779248d280be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 34/95] fix: order the init-only fields of a dataclass as
 declared

They were placed last, so that the items of a sequence were assigned to other
fields than those at the same position in the constructor.
---
 marsh/schema/types/dataclass.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 82133f3..f814d87 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -101,9 +101,13 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         except Exception:
             annotations = {}
         schemas = {}
-        fields = (
-            dataclasses.fields(self.value)
-            + get_init_var_fields(self.value)
+        # in the order of the constructor arguments
+        fields = sorted(
+            (
+                dataclasses.fields(self.value)
+                + get_init_var_fields(self.value)
+            ),
+            key=tuple(getattr(self.value, _FIELDS).values()).index,
         )
 
         def resolve_type(
-- 
2.43.0


From ae2801e09dbffbe8664373608f9f50c70bfe821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 35/95] fix: assign items of a sequence to the keys of a
 TypedDict in order

---
 marsh/schema/types/typeddict.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 9fb598c..8b10a28 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -71,19 +71,15 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         }
         self.schemas = types.MappingProxyType(
             {
-                **{
-                    name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
-                    )
-                    for name in self.required_keys
-                },
-                **{
-                    name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
-                        default=self._sentinel,
-                    )
-                    for name in self.optional_keys
-                },
+                name: marsh.schema.UnmarshalSchema(
+                    annotations[name],
+                    default=(
+                        self._sentinel
+                        if name in self.optional_keys
+                        else marsh.MISSING
+                    ),
+                )
+                for name in annotations
             },
         )
 
@@ -119,14 +115,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         *args,
         **kwargs,
     ) -> _T:
-        if args and not kwargs:
-            kwargs = {
-                key: value
-                for key, value
-                in zip(get_type_hints(self.value), args)
-            }
-            args = ()
-        mapping = dict(*args, **kwargs)
+        mapping = dict(zip(self.schemas, args), **kwargs)
         for key, value in tuple(mapping.items()):
             if value is self._sentinel:
                 if key in self.optional_keys:
-- 
2.43.0


From 5f6aaee04be6733fa498bec736563066fd5b650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 36/95] fix: order positional-or-keyword arguments before
 var-positional ones

---
 marsh/schema/template/callable.py   | 8 ++++----
 marsh/schema/template/structured.py | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 38f8d16..ebe12cb 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -41,7 +41,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             annotations = {}
         positional = {}
         keyword = {}
-        keyword_only = []
+        keyword_only = {}
         var_positional = None
         var_keyword = None
         for name, param in sig.parameters.items():
@@ -62,8 +62,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             elif param.kind == param.POSITIONAL_OR_KEYWORD:
                 keyword[name] = schema
             elif param.kind == param.KEYWORD_ONLY:
-                keyword[name] = schema
-                keyword_only.append(name)
+                keyword_only[name] = schema
             elif param.kind == param.VAR_POSITIONAL:
                 var_positional = (name, schema)
             elif param.kind == param.VAR_KEYWORD:
@@ -72,10 +71,11 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         self.keyword_only = tuple(keyword_only)
         schemas = {}
         schemas.update(positional)
+        schemas.update(keyword)
         if var_positional:
             name, schema = var_positional
             schemas[f'*{name}'] = schema
-        schemas.update(keyword)
+        schemas.update(keyword_only)
         if var_keyword:
             name, schema = var_keyword
             schemas[f'**{name}'] = schema
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index e2d8ddc..c0d2d40 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -203,8 +203,12 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     for i in range(len(element_list)):
                         with marsh.errors.prepend(i):
                             args.append(schema.unmarshal(element_list.pop(0)))
-                    args.extend(default_args)
-                    default_args = []
+                    if default_args:
+                        # these follow the preceding arguments
+                        args.extend(kwargs.values())
+                        kwargs = {}
+                        args.extend(default_args)
+                        default_args = []
                 else:
                     if element_list and name not in self.keyword_only:
                         args.append(schema.unmarshal(element_list.pop(0)))
-- 
2.43.0


From a6f783ede4d9f1a2d3fd1f4a83c65b209604066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 37/95] fix: document all default arguments

---
 marsh/schema/template/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index c0d2d40..fae361e 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -130,7 +130,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         default_args = list(default_args or ())
         default_kwargs = dict(default_kwargs or {})
         fields: Dict[str, UnmarshalSchema.Doc.Field] = {}
-        for i, (name, schema) in enumerate(self.schemas.items()):
+        for name, schema in self.schemas.items():
             fields[name] = UnmarshalSchema.Doc.Field(
                 doc=schema.doc(depth - 1),
                 type=schema.doc_field_type(),
@@ -148,7 +148,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                 if default_args:
                     default = str(default_args)
                     default_args = []
-            if i < len(default_args):
+            elif default_args:
                 default = str(default_args.pop(0))
             if name in default_kwargs:
                 default = str(default_kwargs.pop(name))
-- 
2.43.0


From 0f364e6992f27f9033756eeb138a6b874c8b9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 38/95] fix: report output directories that can not be created

---
 marsh/entry_point.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 79f11f5..1d4686b 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -226,9 +226,12 @@ class EntryPoint:
                 print(f'failed to create output directory {path}: {error}')
                 sys.exit(1)
 
-            with marsh.errors.maybe_handle_error(handle_create_dir_error):
+            with marsh.errors.maybe_handle_error(
+                handle_create_dir_error,
+                OSError,
+            ):
                 os.makedirs(path, exist_ok=True)
-            os.chdir(path)
+                os.chdir(path)
         try:
             yield
         finally:
-- 
2.43.0


From 5a6bb6dfbf5e608ab4a5407564772eec19ee06af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 39/95] fix: keep the name of loggers that look like numbers

---
 marsh/schema/types/logger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/logger.py b/marsh/schema/types/logger.py
index 8bad6a9..fefeba6 100644
--- a/marsh/schema/types/logger.py
+++ b/marsh/schema/types/logger.py
@@ -113,7 +113,8 @@ class LoggerUnmarshalSchema(marsh.schema.UnmarshalSchema[logging.Logger]):
         if isinstance(arg, str):
             return logging.getLogger(arg)
         if 'name' in arg:
-            logger = logging.getLogger(str(arg['name']))
+            # a name may look like a number
+            logger = logging.getLogger(str(element['name']))  # type: ignore
         else:
             logger = logging.getLogger()
         if 'level' in arg:
@@ -123,6 +124,6 @@ class LoggerUnmarshalSchema(marsh.schema.UnmarshalSchema[logging.Logger]):
                 raise marsh.errors.UnmarshalError(
                     f'could not set logging level to "{arg["level"]}"',
                     element=element,
-                    type=type,
+                    type=self.value,
                 )
         return logger
-- 
2.43.0


From 03c7d49113c06e954005a5fc625f65191feb1df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 40/95] fix: resolve forward references of dataclass fields in
 their own module

---
 marsh/schema/types/dataclass.py | 65 +++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index f814d87..99a5036 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -1,12 +1,15 @@
 import dataclasses
 import re
+import sys
 import types
 from typing import (
     Any,
+    Dict,
     ForwardRef,
     Optional,
     Tuple,
     TypeVar,
+    get_args,
 )
 from typing_extensions import get_type_hints
 
@@ -34,6 +37,57 @@ def get_init_var_fields(
     )
 
 
+def has_forward_ref(
+    type_: Any,
+) -> bool:
+    return (
+        isinstance(type_, (str, ForwardRef))
+        or any(map(has_forward_ref, get_args(type_)))
+    )
+
+
+def get_field_types(
+    dataclass: Any,
+) -> Dict[str, Any]:
+    """Get the types of all fields with any forward references resolved
+    in the modules of the classes that declare them.
+
+    The type of an init-only field is unwrapped."""
+    field_types: Dict[str, Any] = {}
+    for cls in reversed(dataclass.__mro__):
+        for name, type_ in cls.__dict__.get('__annotations__', {}).items():
+            while isinstance(type_, (dataclasses.InitVar, str)):
+                if isinstance(type_, dataclasses.InitVar):
+                    type_ = type_.type
+                else:
+                    evaluated = evaluate_type(type_, cls)
+                    if evaluated is type_:
+                        break
+                    type_ = evaluated
+            field_types[name] = evaluate_type(type_, cls)
+    return field_types
+
+
+def evaluate_type(
+    type_: Any,
+    cls: Any,
+) -> Any:
+    try:
+        return get_type_hints(
+            types.SimpleNamespace(
+                __annotations__={'type_': type_},
+                __type_params__=getattr(cls, '__type_params__', ()),
+            ),
+            # the names of the module take precedence
+            # over those of the class, as in `get_type_hints(cls)`
+            dict(vars(cls)),
+            vars(sys.modules[cls.__module__]),
+            include_extras=True,
+        )['type_']
+    except Exception:
+        return type_
+
+
 def is_generated_class_docstring(
     docstring: Optional[str],
 ) -> bool:
@@ -94,12 +148,9 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         try:
-            annotations = get_type_hints(
-                marsh.utils.get_type(self.value),
-                include_extras=True,
-            )
+            field_types = get_field_types(marsh.utils.get_type(self.value))
         except Exception:
-            annotations = {}
+            field_types = {}
         schemas = {}
         # in the order of the constructor arguments
         fields = sorted(
@@ -114,8 +165,8 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             type_: Any,
         ) -> Any:
             try:
-                if isinstance(type_, (str, ForwardRef)):
-                    type_ = annotations.get(field.name, type_)
+                if has_forward_ref(type_):
+                    type_ = field_types.get(field.name, type_)
             except Exception:
                 pass
             type_is_str = False
-- 
2.43.0


From a97e9c552084969990056694a0231c24722796b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 41/95] fix: marshal the keys of mappings into strings that can
 be unmarshaled

---
 marsh/schema/types/generic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/generic.py b/marsh/schema/types/generic.py
index d021ff9..7c3720f 100644
--- a/marsh/schema/types/generic.py
+++ b/marsh/schema/types/generic.py
@@ -46,10 +46,22 @@ class GenericMappingMarshalSchema(marsh.schema.MarshalSchema):
         self,
     ) -> dict:
         return {
-            str(key): marsh.marshal(self.value[key])
+            self.marshal_key(key): marsh.marshal(self.value[key])
             for key in self.value.keys()
         }
 
+    @staticmethod
+    def marshal_key(
+        key: Any,
+    ) -> str:
+        try:
+            element = marsh.marshal(key)
+        except marsh.errors.MarshError:
+            return str(key)
+        # keep the string of keys that are marshaled
+        # into strings (enums, bytes, e.t.c)
+        return element if isinstance(element, str) else str(key)
+
 
 @marsh.schema.register(priority=GENERIC_PRIORITY)
 class GenericSequenceMarshalSchema(marsh.schema.MarshalSchema):
-- 
2.43.0


From d61b9ed33b9a2d1b74c90a32863b63a0cc7756bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 42/95] fix: report a missing literal as a MissingValueError

---
 marsh/schema/types/literal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/types/literal.py b/marsh/schema/types/literal.py
index 0e73105..79b1593 100644
--- a/marsh/schema/types/literal.py
+++ b/marsh/schema/types/literal.py
@@ -55,6 +55,8 @@ class LiteralUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
     ) -> _T:
         try:
             return super().unmarshal(element)
+        except marsh.errors.MissingValueError:
+            raise
         except Exception:
             closest = marsh.utils.get_closest(
                 value=str(element),
-- 
2.43.0


From 9980df0d3210522f50bda4e64d8dccce1ba6d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 43/95] fix: support fields and arguments named self

---
 marsh/schema/argument.py            | 1 +
 marsh/schema/template/structured.py | 1 +
 marsh/schema/types/typeddict.py     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/marsh/schema/argument.py b/marsh/schema/argument.py
index d991acc..f4085ad 100644
--- a/marsh/schema/argument.py
+++ b/marsh/schema/argument.py
@@ -19,6 +19,7 @@ class ArgumentsUnmarshalSchema(
 
     def construct(
         self,
+        /,
         *args,
         **kwargs,
     ) -> Arguments:
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index fae361e..86f2922 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -251,6 +251,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
 
     def construct(
         self,
+        /,
         *args,
         **kwargs,
     ) -> _T:
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 8b10a28..6a0d7c9 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -112,6 +112,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
 
     def construct(
         self,
+        /,
         *args,
         **kwargs,
     ) -> _T:
-- 
2.43.0


From ec3b7389066796bfb1e13286db86803221d57034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 44/95] fix: construct tuples of items that may be missing

---
 marsh/schema/types/tuple.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index 4172504..8aa2159 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -58,4 +58,6 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
         *args,
         **kwargs,
     ) -> tuple:
-        return tuple(args, **kwargs)
+        # items that are missing in a sequence input or
+        # given by their index are keyword arguments
+        return (*args, *kwargs.values())
-- 
2.43.0


From 2e94b4988edd4aeb6bb0be8d4ab12c107526c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:20 +0000
Subject: [PATCH 45/95] fix: report mismatching non-string literals as an
 UnmarshalError

---
 marsh/schema/types/literal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/literal.py b/marsh/schema/types/literal.py
index 79b1593..9c4f7e5 100644
--- a/marsh/schema/types/literal.py
+++ b/marsh/schema/types/literal.py
@@ -60,7 +60,7 @@ class LiteralUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
         except Exception:
             closest = marsh.utils.get_closest(
                 value=str(element),
-                candidates=(schema.literal_value for schema in self.schemas),
+                candidates=(str(schema.literal_value) for schema in self.schemas),
             )
             err_msg = (
                 'failed to unmarshal input into one '
-- 
2.43.0


From c0a992ce0b64a0a500e4b0662d43316bee82583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:25 +0000
Subject: [PATCH 46/95] fix: do not marshal the element of a slice

---
 marsh/schema/types/slice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index b4117dd..7af1df4 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -94,13 +94,13 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
             element = ()
         args: Tuple[Optional[int], ...]
         if marsh.utils.is_mapping(element):
-            kwargs: Dict[str, Optional[int]] = marsh.cast(
+            kwargs: Dict[str, Optional[int]] = marsh.unmarshal(
                 Dict[Literal['start', 'stop', 'step'], Optional[int]],  # type: ignore
                 element,
             )
             args = tuple(kwargs.get(key, None) for key in ('start', 'stop', 'step'))
         elif marsh.utils.is_sequence(element):
-            args = marsh.cast(Tuple[Optional[int], ...], element)  # type: ignore
+            args = marsh.unmarshal(Tuple[Optional[int], ...], element)  # type: ignore
             if len(args) > 3:
                 raise marsh.errors.UnmarshalError(
                     f'at most 3 optional integers may be used to construct a '
-- 
2.43.0


From 89204292f1849efccfff2559d5ee5daa1a79c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 47/95] fix: leave out missing optional keys of a TypedDict
 regardless of their type

---
 marsh/schema/types/typeddict.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 6a0d7c9..1a28ae3 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -2,6 +2,8 @@ import functools
 import types
 from typing import (
     Any,
+    Mapping,
+    Optional,
     Sequence,
     TypeVar,
     get_args,
@@ -110,6 +112,32 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             'all keys are optional.'
         )
 
+    def unmarshal(
+        self,
+        element: marsh.element.ElementType,
+        default_args: Optional[Sequence] = None,
+        default_kwargs: Optional[Mapping[str, Any]] = None,
+    ) -> _T:
+        # optional keys that are missing are left out
+        # instead of being unmarshaled from a missing value
+        if marsh.utils.is_mapping(element):
+            element = {
+                key: element[key]
+                for key in element
+                if (
+                    key not in self.optional_keys
+                    or not marsh.utils.is_missing(element[key])
+                )
+            }
+        return super().unmarshal(
+            element,
+            default_args=default_args,
+            default_kwargs={
+                **dict.fromkeys(self.optional_keys, self._sentinel),
+                **(default_kwargs or {}),
+            },
+        )
+
     def construct(
         self,
         /,
-- 
2.43.0


From 9f492f9dfc491b70c7d9aed06f7d941c00bee5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 48/95] fix: report keys that are not strings as UnmarshalError

---
 marsh/schema/template/structured.py | 6 ++++++
 marsh/utils.py                      | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 86f2922..60a6048 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -198,6 +198,12 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                             kwargs[key] = value
                     for key in tuple(element_dict):
                         with marsh.errors.prepend(key):
+                            if not isinstance(key, str):
+                                raise marsh.errors.UnmarshalError(
+                                    'expected the name of a keyword argument',
+                                    element=element,
+                                    type=self.value,
+                                )
                             kwargs[key] = schema.unmarshal(element_dict.pop(key))
                 elif name.startswith('*'):
                     for i in range(len(element_list)):
diff --git a/marsh/utils.py b/marsh/utils.py
index 2225b7f..46a6dc4 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2406,7 +2406,7 @@ def get_closest_error_message(
     """
     message = f'unknown {key} "{value}"'
     closest = get_closest(
-        value=value,
+        value=str(value),
         candidates=candidates,
     )
     if closest:
-- 
2.43.0


From 8c2e48b7372c1da6378865ca1d74775d3186e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 49/95] fix: read booleans and bytes from the content of str
 subclasses

---
 marsh/schema/types/bytes.py | 4 +++-
 marsh/utils.py              | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/bytes.py b/marsh/schema/types/bytes.py
index b44bb9f..0ce53f6 100644
--- a/marsh/schema/types/bytes.py
+++ b/marsh/schema/types/bytes.py
@@ -93,7 +93,9 @@ class BytesUnmarshalSchema(marsh.schema.UnmarshalSchema[bytes]):
                 type=self.value,
             )
         try:
-            return marsh.utils.base64_to_bytes(str(element))
+            if not isinstance(element, str):
+                element = str(element)
+            return marsh.utils.base64_to_bytes(element)
         except Exception:
             raise marsh.errors.UnmarshalError(
                 'failed to unmarshal bytes',
diff --git a/marsh/utils.py b/marsh/utils.py
index 46a6dc4..e4ff52d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1998,7 +1998,9 @@ def primitive_to_bool(
         return True
     elif value == 0:
         return False
-    return str_to_bool(str(value))
+    if not isinstance(value, str):
+        value = str(value)
+    return str_to_bool(value)
 
 
 def str_to_bool(
-- 
2.43.0


From 8ff471284f0100bc3b2015fd6c14c267e60d1d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 50/95] fix: resolve forward references of each local class on
 its own

---
 marsh/schema/core/unmarshal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 9924060..38650a0 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -67,16 +67,20 @@ def is_order_sensitive(
     """Evaluates if types that equal each other may behave differently.
 
     The order of the arguments in a union or literal matters when
-    unmarshaling but is ignored when comparing them.
+    unmarshaling but is ignored when comparing them. The type that a
+    forward reference resolves to depends on where it is used.
 
     Arguments:
         value: The type to evaluate.
 
     Returns:
-        ``True`` if the type is or contains a union or literal.
+        ``True`` if the type is or contains a union, literal or
+        forward reference.
     """
     if get_origin(value) in (Union, Literal, union_type):
         return True
+    if isinstance(value, ForwardRef):
+        return True
     return any(map(is_order_sensitive, get_args(value)))
 
 
-- 
2.43.0


From a25a1f3dc047c9c1f0d9e3a893641699dc98cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 51/95] fix: end the recursion of a missing value of a type
 that contains itself

---
 marsh/schema/template/structured.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 60a6048..4f8237b 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -1,3 +1,4 @@
+import threading
 from typing import (
     Any,
     Dict,
@@ -15,6 +16,18 @@ from .. import UnmarshalSchema
 _T = TypeVar('_T')
 
 
+class _Absent(threading.local):
+    """Types that are currently unmarshaled from a missing element."""
+
+    def __init__(
+        self,
+    ) -> None:
+        self.types: List[Any] = []
+
+
+_absent = _Absent()
+
+
 class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     """A schema for types with fixed attributes
     that are recursively unmarshaled.
@@ -165,7 +178,21 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            element = {}
+            if self.value in _absent.types:
+                # nothing would end the recursion
+                raise marsh.errors.MissingValueError(
+                    type=self.value,
+                )
+            _absent.types.append(self.value)
+            try:
+                return StructuredUnmarshalSchema.unmarshal(
+                    self,
+                    {},
+                    default_args=default_args,
+                    default_kwargs=default_kwargs,
+                )
+            finally:
+                _absent.types.pop()
         element_list: List[Any] = []
         element_dict: Dict[str, Any] = {}
         args: List = []
-- 
2.43.0


From fede33913eaf61166484cd0928fc630b27700961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:28 +0000
Subject: [PATCH 52/95] fix: read the qualifiers of postponed annotations of a
 TypedDict

---
 marsh/schema/types/typeddict.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 1a28ae3..f0a725e 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -2,6 +2,7 @@ import functools
 import types
 from typing import (
     Any,
+    Collection,
     Mapping,
     Optional,
     Sequence,
@@ -43,8 +44,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             keys = frozenset(get_type_hints(self.value))
         else:
             keys = frozenset()
-        ordered_keys = tuple(get_type_hints(self.value))
-        return sorted(keys, key=lambda x: ordered_keys.index(x))
+        return self._with_qualifiers(keys, Required, NotRequired)
 
     @functools.cached_property
     def optional_keys(
@@ -56,8 +56,25 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             keys = frozenset(get_type_hints(self.value))
         else:
             keys = frozenset()
-        ordered_keys = tuple(get_type_hints(self.value))
-        return sorted(keys, key=lambda x: ordered_keys.index(x))
+        return self._with_qualifiers(keys, NotRequired, Required)
+
+    def _with_qualifiers(
+        self,
+        keys: Collection[str],
+        included: Any,
+        excluded: Any,
+    ) -> Sequence[str]:
+        # the qualifiers of postponed annotations are
+        # not part of the attributes of the type
+        return [
+            name
+            for name, type_
+            in get_type_hints(self.value, include_extras=True).items()
+            if (
+                get_origin(type_) is included
+                or (name in keys and get_origin(type_) is not excluded)
+            )
+        ]
 
     def __init__(
         self,
-- 
2.43.0


From 07c6d38668fdc93176a364424572079b722e2fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 53/95] fix: resolve forward references of lazily built schemas
 within their own type

---
 marsh/schema/core/unmarshal.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 38650a0..f1429a6 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -650,6 +650,26 @@ class WrapperUnmarshalSchema(
         super().__init__(*args, **kwargs)
         base.WrapperSchema.__init__(self, *args, **kwargs)
 
+    @property
+    def schema(
+        self,
+    ) -> UnmarshalSchema[_T]:
+        if getattr(self, '_schema', None) is None:
+            # other types of the same name may have been added
+            # since then, which must not be referred to
+            try:
+                UnmarshalSchema.type_cache.add(self.value)
+            except (AttributeError, TypeError):
+                pass
+        return base.WrapperSchema.schema.__get__(self)
+
+    @schema.setter
+    def schema(
+        self,
+        value: UnmarshalSchema[_T],
+    ) -> None:
+        self._schema = value
+
     def __str__(
         self,
     ) -> str:
-- 
2.43.0


From caf4a5d1cb09f245b8cf44c4caf5d5152b02679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 54/95] fix: allow whitespace in front of the closing bracket
 of a sequence

---
 marsh/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index f9d64dc..603d7bc 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -525,6 +525,7 @@ def sequence(
                     terminal_chars=',' + closing_char,
                 ),
             )
+            consume_whitespace(source)
         consume_whitespace(source)
         if peek(source) != closing_char:
             raise ParseError(
-- 
2.43.0


From 7eea772b6bae9716baf0482aa35bf6305351ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 55/95] fix: evaluate forward references inside the annotations
 of callables

---
 marsh/schema/template/callable.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index ebe12cb..d433f9c 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -4,6 +4,7 @@ from typing import (
     Any,
     ForwardRef,
     TypeVar,
+    get_args,
 )
 from typing_extensions import get_type_hints
 
@@ -14,6 +15,15 @@ from . import structured
 _T = TypeVar('_T')
 
 
+def has_forward_ref(
+    type_: Any,
+) -> bool:
+    return (
+        isinstance(type_, (str, ForwardRef))
+        or any(map(has_forward_ref, get_args(type_)))
+    )
+
+
 class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
     """Unmarshals the arguments to a callable and uses them to call it."""
 
@@ -33,10 +43,17 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             if inspect.isclass(self.value):
                 annotations = get_type_hints(
                     self.value.__init__,
+                    # the value of a forward reference is kept, and used
+                    # for other callables, if these are the globals
+                    localns={},
                     include_extras=True,
                 )
             else:
-                annotations = get_type_hints(self.value, include_extras=True)
+                annotations = get_type_hints(
+                    self.value,
+                    localns={},
+                    include_extras=True,
+                )
         except Exception:
             annotations = {}
         positional = {}
@@ -52,6 +69,8 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 type_ = annotations.get(name, Any)
             else:
                 type_ = param.annotation
+                if has_forward_ref(type_):
+                    type_ = annotations.get(name, type_)
             default = marsh.MISSING
             if param.default is not param.empty:
                 default = param.default
-- 
2.43.0


From 71101c7248096b50206d441fecc73e22b7ecb5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:11 +0000
Subject: [PATCH 56/95] fix: let keyword-only arguments follow additional
 positional defaults

---
 marsh/schema/template/structured.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 4f8237b..0f51cc8 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -74,8 +74,13 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         kwargs: Optional[Mapping[str, Any]] = None,
     ) -> None:
         if args and kwargs:
-            for i, name in enumerate(self.schemas):
-                if i < len(args) and name in kwargs:
+            positional = (
+                name
+                for name in self.schemas
+                if not (name.startswith('*') or name in self.keyword_only)
+            )
+            for name, _ in zip(positional, args):
+                if name in kwargs:
                     raise TypeError(
                         'received the same argument twice '
                         'through `default_args` and '
-- 
2.43.0


From 8e67be419342ceae172c5e6cafc0dc830447c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 57/95] fix: check and replace components when a registering
 decorator is applied

---
 marsh/schema/namespace.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 66be914..f9dd856 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -567,23 +567,27 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
             A decorator for registering the type if no
             type was given else the type itself.
         """
-        if name in self:
-            if not replace:
+        def _assert_replaceable() -> None:
+            if name in self and not replace:
                 raise marsh.errors.MarshError(
                     f'a component with the name "{name}" '
                     'already exists',
                 )
-            self._schemas.pop(name, None)
+
+        _assert_replaceable()
 
         def _register(
             component: Type[_T],
         ) -> Type[_T]:
+            # the decorator may be used at a later time
+            _assert_replaceable()
             if not issubclass(component, self.base):
                 raise ValueError(
                     'registered component must be '
                     F'a subclass of {self.base}: {component}',
                 )
             self.components[name] = component
+            self._schemas.pop(name, None)
             self.cache_clear()
             self._namespaces.cache_clear()
             marsh.schema.UnmarshalSchema.cache_clear()
-- 
2.43.0


From e218ac1ca70c071bb6edd991b56db032a6bccb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 58/95] fix: keep the replaced value when the priorities of a
 new one are refused

---
 marsh/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index e4ff52d..2e752a1 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1268,6 +1268,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                 higher_priority=higher_priority,
             )
 
+            previous = list(self._values)
             # does the value to be added already exist?
             for i in range(len(self._values)):
                 if self._values[i].value == wrapped.value:
@@ -1278,7 +1279,12 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                         f'{wrapped} already exists.',
                     )
 
-            self._insert(wrapped)
+            try:
+                self._insert(wrapped)
+            except ValueError:
+                # keep the value that was to be replaced
+                self._values = previous
+                raise
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From ff5f32da8631a0a04c13a386a347df564afc9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 59/95] fix: keep the matches of registries apart

---
 marsh/schema/core/unmarshal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index f1429a6..cdbd538 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -217,7 +217,7 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
         name='marsh.schema.UnmarshalSchema.registry.match',
         typed=False,
         safe=True,
-        binding='ignore',
+        binding='weak',
     )
     def match(
         self,
-- 
2.43.0


From 5152cdb071b95133f99a56075f45ae7b8cf1f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 60/95] fix: numbers annotations refuse nan

---
 marsh/annotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/annotation.py b/marsh/annotation.py
index 227dd11..d11c3fd 100644
--- a/marsh/annotation.py
+++ b/marsh/annotation.py
@@ -91,7 +91,7 @@ class Positive(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value <= 0:  # type: ignore
+        if not value > 0:  # type: ignore
             raise ValueError(
                 f'positive value required, got {value}',
             )
@@ -105,7 +105,7 @@ class Negative(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value >= 0:  # type: ignore
+        if not value < 0:  # type: ignore
             raise ValueError(
                 f'negative value required, got {value}',
             )
@@ -119,7 +119,7 @@ class Unsigned(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value < 0:  # type: ignore
+        if not value >= 0:  # type: ignore
             raise ValueError(
                 f'unsigned value required, got {value}',
             )
-- 
2.43.0


From e2390a26feeb532c3aeff3c0a36ebc196d822be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 61/95] fix: descriptions in help are wrapped to the width

---
 marsh/doc/terminal.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/marsh/doc/terminal.py b/marsh/doc/terminal.py
index 2688e9d..09ccc25 100644
--- a/marsh/doc/terminal.py
+++ b/marsh/doc/terminal.py
@@ -44,19 +44,17 @@ def format_terminal_value(
     if not description:
         return value
     fill_indent = ' ' * description_indent
-    fill_init_indent = fill_indent
     value_len = len(value.split('\n')[-1])
-    if description_indent - value_len >= description_margin:
-        fill_init_indent = fill_indent[value_len:]
-    else:
-        value = f'{value}\n'
     description = textwrap.fill(
         text=description,
         width=width,
-        initial_indent=fill_init_indent,
+        initial_indent=fill_indent,
         subsequent_indent=fill_indent,
     )
-    return f'{value}{description}'
+    if description_indent - value_len >= description_margin:
+        # the value takes the place of the indentation
+        return f'{value}{description[value_len:]}'
+    return f'{value}\n{description}'
 
 
 def format_unmarshal_fields(
-- 
2.43.0


From b58a8ae8691677fc6600b8f5d5b017bd0865194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 62/95] fix: documented attributes of nested classes

---
 marsh/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 2e752a1..cd3e253 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -9,6 +9,7 @@ import inspect
 import os
 import shutil
 import sys
+import textwrap
 import threading
 import weakref
 import types
@@ -2277,7 +2278,8 @@ def _get_attribute_description(
         except Exception:
             pass
     try:
-        ast_body = ast.parse(inspect.getsource(cls)).body[0].body  # type: ignore
+        source = textwrap.dedent(inspect.getsource(cls))
+        ast_body = ast.parse(source).body[0].body  # type: ignore
     except Exception:
         return None
     node_iter = iter(ast_body)
-- 
2.43.0


From 5885934a0d2d64e9e3409dc75e94d1b8e7445eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 63/95] fix: postponed annotations of constructors, partials
 and callable objects

---
 marsh/schema/template/callable.py | 61 ++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index d433f9c..0e0d342 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -1,7 +1,10 @@
+import functools
 import inspect
 import types
 from typing import (
     Any,
+    Callable,
+    Dict,
     ForwardRef,
     TypeVar,
     get_args,
@@ -24,6 +27,46 @@ def has_forward_ref(
     )
 
 
+def get_parameter_hints(
+    callable_: Callable,
+) -> Dict[str, Any]:
+    """Get the type hints for the signature of a callable.
+
+    Arguments:
+        callable_: Any callable for which there is a signature.
+
+    Returns:
+        The resolved type hints by the names of the parameters.
+    """
+    if isinstance(callable_, functools.partial):
+        return get_parameter_hints(callable_.func)
+    functions = [callable_]
+    if inspect.isclass(callable_):
+        # the last one that is defined is used for the signature
+        functions = [
+            callable_.__init__,
+            callable_.__new__,
+            type(callable_).__call__,
+        ]
+    elif not inspect.isroutine(callable_) and not hasattr(callable_, '__wrapped__'):
+        functions = [type(callable_).__call__]
+    hints: Dict[str, Any] = {}
+    for function in functions:
+        try:
+            hints.update(
+                get_type_hints(
+                    function,
+                    # the value of a forward reference is kept, and used
+                    # for other callables, if these are the globals
+                    localns={},
+                    include_extras=True,
+                ),
+            )
+        except Exception:
+            pass
+    return hints
+
+
 class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
     """Unmarshals the arguments to a callable and uses them to call it."""
 
@@ -39,23 +82,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             raise ValueError(
                 f'failed to retrieve callable signature: {self.value}',
             )
-        try:
-            if inspect.isclass(self.value):
-                annotations = get_type_hints(
-                    self.value.__init__,
-                    # the value of a forward reference is kept, and used
-                    # for other callables, if these are the globals
-                    localns={},
-                    include_extras=True,
-                )
-            else:
-                annotations = get_type_hints(
-                    self.value,
-                    localns={},
-                    include_extras=True,
-                )
-        except Exception:
-            annotations = {}
+        annotations = get_parameter_hints(self.value)
         positional = {}
         keyword = {}
         keyword_only = {}
-- 
2.43.0


From 2e1d8e7a91375e2e0d074d2abb99233beb060739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 64/95] fix: items of a sequence replace arguments that were
 given by name

---
 marsh/schema/template/structured.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 0f51cc8..58ed693 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -251,6 +251,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     if element_list and name not in self.keyword_only:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
+                        default_kwargs.pop(name, None)
                     else:
                         if default_args:
                             value = default_args.pop(0)
-- 
2.43.0


From ab0bba8f7b1b13b656e4274dd9d9000bf9fb8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 65/95] fix: catch_cause follows the chain of causes

---
 marsh/testing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/testing.py b/marsh/testing.py
index d3ea0e7..7cf5a29 100644
--- a/marsh/testing.py
+++ b/marsh/testing.py
@@ -45,7 +45,10 @@ def catch_cause(
             if isinstance(inner_exc, cause):
                 return
             exception_chain.append(inner_exc.__class__.__name__)
-            inner_exc = inner_exc.__context__
+            if inner_exc.__cause__ is not None:
+                inner_exc = inner_exc.__cause__
+            else:
+                inner_exc = inner_exc.__context__
         raise AssertionError(
             f'expected an exception of type {cause} '
             f'as cause, got {tuple(exception_chain)}',
-- 
2.43.0


From 2fdd50436e30ab82f31b663db563fc8af2bc3e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 66/95] fix: docstrings of dataclasses are recognized in linear
 time

---
 marsh/schema/types/dataclass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 99a5036..137805a 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -94,8 +94,10 @@ def is_generated_class_docstring(
     if docstring:
         return bool(
             re.match(
-                r'^[a-zA-Z0-9_]+\(([a-zA-Z0-9_]+: .+( = .+)?)*\)$',
+                r'^\w+\((\w+: .+)?\)$',
                 docstring,
+                # the representation of a default may have several lines
+                re.DOTALL,
             ),
         )
     return False
-- 
2.43.0


From b769d8b576395724e9d06a1ad0aa2f9a32611869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 67/95] fix: protocols use the default of a missing element

---
 marsh/schema/types/protocol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marsh/schema/types/protocol.py b/marsh/schema/types/protocol.py
index da5a8dc..8f338de 100644
--- a/marsh/schema/types/protocol.py
+++ b/marsh/schema/types/protocol.py
@@ -90,11 +90,17 @@ class ProtocolUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
         self,
         element: marsh.element.ElementType,
     ) -> Any:
+        if marsh.utils.is_missing(element) and self.has_default():
+            return self.get_default()
         for type_ in self.matched:
             try:
                 return marsh.unmarshal(type_, element)
             except Exception:
                 pass
+        if marsh.utils.is_missing(element):
+            raise marsh.errors.MissingValueError(
+                type=self.value,
+            )
         raise marsh.errors.UnmarshalError(
             f'failed to unmarshal into one of the classes {self.matched}',
             element=element,
-- 
2.43.0


From 505147bb62082237540a6fdbc02725665673a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 68/95] fix: contents of omegaconf containers are marshaled

---
 marsh/schema/types/omegaconf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/types/omegaconf.py b/marsh/schema/types/omegaconf.py
index b56e40f..2dfe2e0 100644
--- a/marsh/schema/types/omegaconf.py
+++ b/marsh/schema/types/omegaconf.py
@@ -1,7 +1,6 @@
 from typing import (
     Any,
     Union,
-    cast,
 )
 
 import omegaconf
@@ -39,8 +38,9 @@ class OmegaconfMarshalSchema(marsh.schema.MarshalSchema):
     def marshal(
         self,
     ) -> marsh.element.ElementType:
-        return cast(
-            marsh.element.ElementType,
+        # containers may hold bytes and keys
+        # of any primitive type
+        return marsh.marshal(
             omegaconf.OmegaConf.to_container(
                 self.value,
                 enum_to_str=True,
-- 
2.43.0


From 8386ef567670496af5a7d6509d055764af6c5e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 69/95] fix: types may be garbage collected while forward
 references are resolved

---
 marsh/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index cd3e253..532f344 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1339,7 +1339,9 @@ class WeakTypeCache:
     ) -> Iterator[Any]:
         data = getattr(self._types, 'data', None)
         if isinstance(data, dict):
-            for ref in tuple(reversed(data)):
+            # copied at once as the garbage collector may remove
+            # references at any time
+            for ref in reversed(list(data)):
                 type_ = ref()
                 if type_ is not None:
                     yield type_
-- 
2.43.0


From 3e8f1e56a682cd1a176ab2c017313eae1f1c116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 70/95] fix: the origin of typing.Generic is typing.Generic

---
 marsh/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 532f344..1e8d236 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1430,7 +1430,7 @@ def is_sequence_type(
     Returns:
         ``True`` if value is a sequence type, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    if (origin := get_origin(value)) not in (None, value):
         return is_sequence_type(origin)
     try:
         return (
@@ -1527,7 +1527,7 @@ def is_mapping_type(
     Returns:
         ``True`` if value is a mapping, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    if (origin := get_origin(value)) not in (None, value):
         return is_mapping_type(origin)
     try:
         return (
@@ -1889,7 +1889,7 @@ def get_type(
     Returns:
         The type.
     """
-    if (origin := get_origin(value)) is not None:
+    if (origin := get_origin(value)) not in (None, value):
         return get_type(origin)
     if is_typing_alias(value):
         return value
-- 
2.43.0


From ec59f4f78d79636c13f90e366954d19aea8184e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 71/95] fix: content of generic sequences and mappings follows
 the type parameters

---
 marsh/utils.py | 79 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 16 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 1e8d236..dd0abb4 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2426,6 +2426,67 @@ def get_closest_error_message(
     return message
 
 
+def substitute_type_parameters(
+    type_: Any,
+    substitutes: Mapping[Any, Any],
+) -> Any:
+    """Replace the type parameters of a generic type.
+
+    Arguments:
+        type_: The type with type parameters.
+        substitutes: The types to use, by the type parameters
+            they replace.
+
+    Returns:
+        The type with its type parameters replaced.
+    """
+    parameters = getattr(type_, '__parameters__', ())
+    if not any(parameter in substitutes for parameter in parameters):
+        return type_
+    return type_[
+        tuple(
+            substitutes.get(parameter, parameter)
+            for parameter in parameters
+        )
+    ]
+
+
+def iter_generic_bases(
+    type_: Any,
+) -> Iterator[Any]:
+    """Iterate over the generic types that a type is derived from.
+
+    The type parameters of the bases are replaced by the
+    types that are used for them. A generic type that is
+    defined by the user comes after its bases, as its arguments
+    do not have to be the ones of the base.
+
+    Arguments:
+        type_: The type to get the bases from.
+
+    Returns:
+        Iterator over the type and its bases.
+    """
+    cls = get_type(type_)
+    bases = getattr(cls, '__dict__', {}).get(
+        '__orig_bases__',
+        getattr(cls, '__bases__', ()),
+    )
+    substitutes = dict(
+        zip(
+            getattr(cls, '__parameters__', ()),
+            get_args(type_),
+        ),
+    )
+    if cls is type_ or substitutes:
+        for base in bases:
+            if get_type(base) not in (object, Generic):
+                yield from iter_generic_bases(
+                    substitute_type_parameters(base, substitutes),
+                )
+    yield type_
+
+
 def inspect_sequence_type(
     sequence_type: Any,
 ) -> Any:
@@ -2452,12 +2513,7 @@ def inspect_sequence_type(
     """
     if is_annotated(sequence_type):
         sequence_type = get_origin(sequence_type)
-    orig_bases = getattr(
-        sequence_type,
-        '__orig_bases__',
-        (),
-    )
-    for base in (sequence_type,) + orig_bases:
+    for base in iter_generic_bases(sequence_type):
         if is_sequence_type(base):
             t_args = get_args(base)
             if (
@@ -2497,16 +2553,7 @@ def inspect_mapping_type(
     """
     if is_annotated(mapping_type):
         mapping_type = get_origin(mapping_type)
-    orig_bases = getattr(
-        mapping_type,
-        '__orig_bases__',
-        getattr(
-            get_type(mapping_type),
-            '__orig_bases__',
-            (),
-        ),
-    )
-    for base in (mapping_type, get_type(mapping_type)) + orig_bases:
+    for base in iter_generic_bases(mapping_type):
         if is_mapping_type(base):
             t_args = get_args(base)
             if len(t_args) == 2:
-- 
2.43.0


From 1fef7a819afceece474d12d2844c20b8aad47aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 72/95] fix: subclasses of generic sets have the content of the
 generic set

---
 marsh/schema/types/set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/set.py b/marsh/schema/types/set.py
index 1e466b3..a8eabb6 100644
--- a/marsh/schema/types/set.py
+++ b/marsh/schema/types/set.py
@@ -18,8 +18,10 @@ class SetUnmarshalSchema(sequence.SequenceUnmarshalSchema):
     ) -> None:
         super().__init__(*args, **kwargs)
         type_ = Any
-        if (_args := get_args(self.value)):
-            type_ = _args[0]
+        for base in marsh.utils.iter_generic_bases(self.value):
+            if self.match(base) and (_args := get_args(base)):
+                type_ = _args[0]
+                break
         self.value_schema = marsh.schema.UnmarshalSchema(type_)
 
     @classmethod
-- 
2.43.0


From 131ee08d1d764b17f5a4112826877a4883b34020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 73/95] fix: subclasses of defaultdict are unmarshaled into
 instances of the subclass

---
 marsh/schema/types/defaultdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index f17ad97..9b2cdda 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -92,4 +92,4 @@ class DefaultDictUnmarshalSchema(
         self,
         value: Mapping[Any, Any],
     ) -> collections.defaultdict:
-        return collections.defaultdict(self.initializer, value)
+        return marsh.utils.get_type(self.value)(self.initializer, value)
-- 
2.43.0


From c7c957ff855b313d3bc8f6bafa93da6a369d32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 74/95] fix: aliases of generic named tuples and typed dicts
 are no plain containers

---
 marsh/schema/types/generic.py  | 10 ++++++++--
 marsh/schema/types/mapping.py  |  1 +
 marsh/schema/types/sequence.py |  1 +
 marsh/utils.py                 | 23 +++++++++++++++++++++++
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/generic.py b/marsh/schema/types/generic.py
index 7c3720f..c29f289 100644
--- a/marsh/schema/types/generic.py
+++ b/marsh/schema/types/generic.py
@@ -205,7 +205,10 @@ class GenericMappingUnmarshalSchema(
         cls,
         value: Any,
     ) -> bool:
-        return marsh.utils.is_mapping_type(value)
+        return (
+            marsh.utils.is_mapping_type(value)
+            and not marsh.utils.is_structure_alias(value)
+        )
 
     def construct(
         self,
@@ -258,7 +261,10 @@ class GenericSequenceUnmarshalSchema(
         cls,
         value: Any,
     ) -> bool:
-        return marsh.utils.is_sequence_type(value)
+        return (
+            marsh.utils.is_sequence_type(value)
+            and not marsh.utils.is_structure_alias(value)
+        )
 
     def construct(
         self,
diff --git a/marsh/schema/types/mapping.py b/marsh/schema/types/mapping.py
index ea83ab4..8de5db9 100644
--- a/marsh/schema/types/mapping.py
+++ b/marsh/schema/types/mapping.py
@@ -48,6 +48,7 @@ class MappingUnmarshalSchema(marsh.schema.template.MappingUnmarshalSchema[_T]):
         try:
             return (
                 marsh.utils.is_mapping_type(value)
+                and not marsh.utils.is_structure_alias(value)
                 and issubclass(
                     marsh.utils.get_type(value),
                     collections.abc.Mapping,
diff --git a/marsh/schema/types/sequence.py b/marsh/schema/types/sequence.py
index 54f0f0f..5a6c532 100644
--- a/marsh/schema/types/sequence.py
+++ b/marsh/schema/types/sequence.py
@@ -52,6 +52,7 @@ class SequenceUnmarshalSchema(marsh.schema.template.SequenceUnmarshalSchema[_T])
         try:
             return (
                 marsh.utils.is_sequence_type(value)
+                and not marsh.utils.is_structure_alias(value)
                 and issubclass(
                     marsh.utils.get_type(value),
                     collections.abc.Sequence,
diff --git a/marsh/utils.py b/marsh/utils.py
index dd0abb4..56ef23b 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1655,6 +1655,29 @@ def is_typed_namedtuple_type(
         return False
 
 
+def is_structure_alias(
+    value: Any,
+) -> bool:
+    """Determine if a value is a generic named tuple or typed dict
+    for which the type parameters have been specified.
+
+    Arguments:
+        value: Any value to evaluate.
+
+    Returns:
+        ``True`` if value is an alias of a named tuple or typed dict,
+        else ``False``.
+    """
+    origin = get_origin(value)
+    return (
+        origin is not None
+        and (
+            is_namedtuple_type(origin)
+            or is_typeddict_type(origin)
+        )
+    )
+
+
 def is_typeddict_type(
     value: Any,
 ) -> bool:
-- 
2.43.0


From d711ea75e155860c2782bb6152cc79f2fa82531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 75/95] fix: schemas with any kind of default are cached

---
 marsh/schema/core/unmarshal.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index cdbd538..30cda04 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -61,6 +61,30 @@ identified_default_types = {
 }
 
 
+class _Identified:
+    """A default value that only equals itself."""
+
+    def __init__(
+        self,
+        default: Any,
+    ) -> None:
+        self.default = default
+
+    def __eq__(
+        self,
+        other: Any,
+    ) -> bool:
+        return (
+            isinstance(other, _Identified)
+            and self.default is other.default
+        )
+
+    def __hash__(
+        self,
+    ) -> int:
+        return id(self.default)
+
+
 def is_order_sensitive(
     value: Any,
 ) -> bool:
@@ -273,15 +297,14 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if (
-            is_order_sensitive(value)
-            or type(kwargs.get('default')) not in identified_default_types
-        ):
+        if is_order_sensitive(value):
             return cls._build(
                 value=value,
                 *args,
                 **kwargs,
             )
+        if type(kwargs.get('default')) not in identified_default_types:
+            kwargs['default'] = _Identified(kwargs['default'])
         return cls._cached_build(
             value=value,
             *args,
@@ -330,6 +353,8 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         *args,
         **kwargs,
     ):
+        if isinstance(kwargs.get('default'), _Identified):
+            kwargs['default'] = kwargs['default'].default
         return cls._build(
             value=value,
             *args,
-- 
2.43.0


From 0c0eeae6084840b480245ebe0936626a57bb3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 76/95] fix: schemas of absent keys of typed dicts are cached

---
 marsh/schema/types/typeddict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index f0a725e..10152b3 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -34,6 +34,9 @@ class _Sentinel:
 @marsh.schema.register(lower_priority=mapping.MappingUnmarshalSchema)
 class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_T]):
 
+    # shared, as schemas are cached by their default
+    _sentinel = _Sentinel()
+
     @functools.cached_property
     def required_keys(
         self,
@@ -82,7 +85,6 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         **kwargs,
     ) -> None:
         super().__init__(*args, **kwargs)
-        self._sentinel = _Sentinel()
         annotations = {
             name: self._strip_qualifiers(type_)
             for name, type_
-- 
2.43.0


From b799e666820d957566fe5089720768db3c65609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 77/95] fix: removed namespaces are not kept alive by the pool
 of caches

---
 marsh/schema/namespace.py |  3 +++
 marsh/utils.py            | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index f9dd856..c506475 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -138,6 +138,9 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         name,
     ) -> None:
         del self._namespaces[name]
+        # the pool must not keep the namespace alive
+        caches.remove(f'marsh.namespaces.{name}.find_class')
+        caches.remove(f'marsh.namespaces.{name}.find_subclasses')
         self._forget_schemas()
 
     def _forget_schemas(
diff --git a/marsh/utils.py b/marsh/utils.py
index 56ef23b..2a93177 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -840,6 +840,17 @@ class CachePool(Mapping[str, CacheType]):
         """
         self._caches[name] = cache
 
+    def remove(
+        self,
+        name: str,
+    ) -> None:
+        """Remove a cache from the collection.
+
+        Arguments:
+            name: The name of the cache being removed.
+        """
+        del self._caches[name]
+
     @overload
     def new_callable_cache(
         self,
-- 
2.43.0


From 7c4056bbf0155d6bd63573b53442e99a4afb07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 78/95] fix: type parameters of classes that are only derived
 from aliases of builtin types

---
 marsh/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 2a93177..40944a4 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2506,12 +2506,14 @@ def iter_generic_bases(
         '__orig_bases__',
         getattr(cls, '__bases__', ()),
     )
-    substitutes = dict(
-        zip(
-            getattr(cls, '__parameters__', ()),
-            get_args(type_),
-        ),
+    # classes that are only derived from aliases of builtin
+    # types do not know their own type parameters
+    parameters = getattr(cls, '__parameters__', ()) or dict.fromkeys(
+        parameter
+        for base in bases
+        for parameter in getattr(base, '__parameters__', ())
     )
+    substitutes = dict(zip(parameters, get_args(type_)))
     if cls is type_ or substitutes:
         for base in bases:
             if get_type(base) not in (object, Generic):
-- 
2.43.0


From 14e038b925f2e2ee14a52670caab042915ecb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 79/95] fix: __all__ of the package names schema, which 'from
 marsh import *' did not find

---
 marsh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/__init__.py b/marsh/__init__.py
index b8e6147..0967275 100644
--- a/marsh/__init__.py
+++ b/marsh/__init__.py
@@ -38,7 +38,7 @@ __all__ = (
     'utils',
     'element',
     'path',
-    'shema',
+    'schema',
     'config',
     'marshal',
     'unmarshal',
-- 
2.43.0


From 768469b8ebf5cea808784ceb8265f50f25756f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 80/95] fix: values are not compared to find out whether they
 are missing or types, their equality may raise

---
 marsh/schema/types/dataclass.py |  4 ++--
 marsh/schema/types/none.py      |  4 ++--
 marsh/utils.py                  | 15 +++++++++++----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 137805a..f3aabcb 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -198,12 +198,12 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                     type_,
                     default=(
                         marsh.MISSING
-                        if field.default == dataclasses.MISSING
+                        if field.default is dataclasses.MISSING
                         else field.default
                     ),
                     default_factory=(
                         marsh.MISSING
-                        if field.default_factory == dataclasses.MISSING
+                        if field.default_factory is dataclasses.MISSING
                         else field.default_factory
                     ),
                 )
diff --git a/marsh/schema/types/none.py b/marsh/schema/types/none.py
index 81b7502..71a7c29 100644
--- a/marsh/schema/types/none.py
+++ b/marsh/schema/types/none.py
@@ -12,7 +12,7 @@ class NoneMarshalSchema(marsh.schema.MarshalSchema):
         value: Any,
     ) -> bool:
         try:
-            return value in (None, type(None))
+            return value is None or value is type(None)
         except Exception:
             return False
 
@@ -46,7 +46,7 @@ class NoneUnmarshalSchema(marsh.schema.UnmarshalSchema[None]):
         value: Any,
     ) -> bool:
         try:
-            return value in (None, type(None))
+            return value is None or value is type(None)
         except Exception:
             return False
 
diff --git a/marsh/utils.py b/marsh/utils.py
index 40944a4..605c377 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1405,7 +1405,13 @@ def is_missing(
     Returns:
         ``True`` if missing, else ``False``.
     """
-    return value in (omegaconf.MISSING, dataclasses.MISSING)
+    if value is dataclasses.MISSING:
+        return True
+    # other objects are not compared, their equality may be anything
+    return (
+        isinstance(value, (str, omegaconf.Node))
+        and value == omegaconf.MISSING
+    )
 
 
 def is_sequence(
@@ -1852,7 +1858,7 @@ def is_literal_string(
     Returns:
         ``True`` if value is a typing.LiteralString, else ``False``.
     """
-    return value in _LiteralStringTypes
+    return any(value is type_ for type_ in _LiteralStringTypes)
 
 
 def is_typing_alias(
@@ -1875,7 +1881,7 @@ def is_typing_alias(
     return (
         get_origin(value) is not None
         or type(value) is getattr(types, 'GenericAlias', None)
-        or value in _TypeAliasTypes
+        or any(value is type_ for type_ in _TypeAliasTypes)
         or hasattr(value, '__class__')
         and (
             value.__class__.__name__.endswith('_GenericAlias')
@@ -2233,7 +2239,8 @@ def cast_none(
     """
     if (
         is_missing(value)
-        or value in (None, type(None))
+        or value is None
+        or value is type(None)
     ):
         return None
     if str(value).lower() in ('null', 'none'):
-- 
2.43.0


From 0d6a1df28f50a5efea2b82afc70709f5f37dd540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 81/95] fix: names, contents and optionals of annotated types,
 and of X | None, were not found by the helpers of utils

---
 marsh/utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 605c377..8ed66a5 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1900,12 +1900,12 @@ def is_optional(
         type: The type to evaluate.
 
     Returns:
-        ``True`` if value is ``typing.Union`` and
-        :data:`None` is in its arguments, else ``False``.
+        ``True`` if value is a union and :data:`None`
+        is in its arguments, else ``False``.
     """
     if is_annotated(type_):
-        type_ = get_origin(type_)
-    return get_origin(type_) is Union \
+        type_ = type_.__origin__
+    return get_origin(type_) in (Union, getattr(types, 'UnionType', Union)) \
         and type(None) in get_args(type_)
 
 
@@ -1960,7 +1960,7 @@ def get_optional_type(
             f'{type_}',
         )
     if is_annotated(type_):
-        type_ = get_origin(type_)
+        type_ = type_.__origin__
     args = []
     for arg in get_args(type_):
         if arg not in (None, type(None)):  # noqa: E721
@@ -1983,7 +1983,7 @@ def get_type_name(
         The string representation of the value.
     """
     if is_annotated(value):
-        value = get_origin(value)
+        value = value.__origin__
     if is_typing_alias(value):
         return str(value).replace('typing.', '')
     return getattr(get_type(value), '__name__', str(value))
@@ -2555,7 +2555,7 @@ def inspect_sequence_type(
     typing.Any
     """
     if is_annotated(sequence_type):
-        sequence_type = get_origin(sequence_type)
+        sequence_type = sequence_type.__origin__
     for base in iter_generic_bases(sequence_type):
         if is_sequence_type(base):
             t_args = get_args(base)
@@ -2595,7 +2595,7 @@ def inspect_mapping_type(
     (typing.Any, typing.Any)
     """
     if is_annotated(mapping_type):
-        mapping_type = get_origin(mapping_type)
+        mapping_type = mapping_type.__origin__
     for base in iter_generic_bases(mapping_type):
         if is_mapping_type(base):
             t_args = get_args(base)
-- 
2.43.0


From f40ea22bda5bcd294db20a18e4d7177ab8a40f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 82/95] fix: enums are no sequence types, only their metaclass
 has the methods of a sequence

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8ed66a5..6ac2f8d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1453,7 +1453,7 @@ def is_sequence_type(
         return (
             not is_mapping_type(value)
             and not issubclass(value, (str, bytes))
-            and isinstance(value, SequenceProtocol)
+            and issubclass(value, SequenceProtocol)
             and not is_obj_instance(value)
         )
     except TypeError:
-- 
2.43.0


From d2ad4eab685d2ba0206ccc8a2bf1343f77677886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 83/95] fix: types were compared by equality, which is up to
 their metaclass

---
 marsh/schema/core/unmarshal.py |  8 +++++--
 marsh/schema/namespace.py      |  2 +-
 marsh/schema/template/union.py |  2 +-
 marsh/schema/types/complex.py  |  2 +-
 marsh/schema/types/datetime.py |  4 ++--
 marsh/schema/types/tuple.py    |  2 +-
 marsh/utils.py                 | 40 ++++++++++++++++++++--------------
 7 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 30cda04..510a71d 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -101,7 +101,8 @@ def is_order_sensitive(
         ``True`` if the type is or contains a union, literal or
         forward reference.
     """
-    if get_origin(value) in (Union, Literal, union_type):
+    origin = get_origin(value)
+    if any(origin is type_ for type_ in (Union, Literal, union_type)):
         return True
     if isinstance(value, ForwardRef):
         return True
@@ -614,7 +615,10 @@ class UnmarshalSchema(
         if marsh.utils.is_typing_alias(self.value):
             return None
         try:
-            if self.value in (int, float, bool, str, bytes, tuple, list, dict):
+            if any(
+                self.value is type_
+                for type_ in (int, float, bool, str, bytes, tuple, list, dict)
+            ):
                 return None
         except Exception:
             pass
diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index c506475..fdb550e 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -491,7 +491,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         if not issubclass(cls, self.base):
             return None
         for name, component in self.components.items():
-            if component == cls:
+            if component is cls:
                 return name
         return None
 
diff --git a/marsh/schema/template/union.py b/marsh/schema/template/union.py
index 582db2c..43b3df6 100644
--- a/marsh/schema/template/union.py
+++ b/marsh/schema/template/union.py
@@ -33,7 +33,7 @@ class UnionUnmarshalSchema(UnmarshalSchema[_T]):
             and marsh.utils.is_optional(self.value)
         ):
             for schema in self.schemas:
-                if schema.value not in (None, type(None)):
+                if schema.value is not None and schema.value is not type(None):
                     return schema
         return None
 
diff --git a/marsh/schema/types/complex.py b/marsh/schema/types/complex.py
index 17d073d..602d6a9 100644
--- a/marsh/schema/types/complex.py
+++ b/marsh/schema/types/complex.py
@@ -72,7 +72,7 @@ class ComplexUnmarshalSchema(marsh.schema.UnmarshalSchema[complex]):
             # more arguments than just `real` and `imag`.
             return (
                 issubclass(value, complex)
-                or value == numbers.Complex
+                or value is numbers.Complex
             )
         except Exception:
             return False
diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index b8d7a69..c40dd6a 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -140,7 +140,7 @@ class DatetimeUnmarshalSchema(
         except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
                 # marshaled values are on ISO format
-                if self.value == datetime.time:
+                if self.value is datetime.time:
                     try:
                         return datetime.time.fromisoformat(element)
                     except ValueError:
@@ -155,7 +155,7 @@ class DatetimeUnmarshalSchema(
                 element=element,
                 type=self.value,
             )
-        if self.value == datetime.time:
+        if self.value is datetime.time:
             return dt.time()
         # datetime is subclass of date
         return dt
diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index 8aa2159..28bc7f4 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -20,7 +20,7 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
             str(i): marsh.schema.UnmarshalSchema(type_)
             for i, type_ in enumerate(
                 arg for arg in get_args(self.value)
-                if arg != ()  # empty tuple type
+                if not isinstance(arg, tuple)  # empty tuple type
             )
         }
 
diff --git a/marsh/utils.py b/marsh/utils.py
index 6ac2f8d..5a8b832 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1447,7 +1447,8 @@ def is_sequence_type(
     Returns:
         ``True`` if value is a sequence type, else ``False``.
     """
-    if (origin := get_origin(value)) not in (None, value):
+    origin = get_origin(value)
+    if origin is not None and origin is not value:
         return is_sequence_type(origin)
     try:
         return (
@@ -1484,7 +1485,7 @@ def is_empty_tuple_type(
     if not args:
         return True
     # For typing.Tuple[()] the empty tuple argument is retained.
-    return args == ((),)
+    return len(args) == 1 and isinstance(args[0], tuple)
 
 
 def is_fixed_size_tuple_type(
@@ -1506,7 +1507,7 @@ def is_fixed_size_tuple_type(
         and (
             (
                 (args := get_args(value))
-                and ... not in args
+                and all(arg is not ... for arg in args)
             )
             or is_empty_tuple_type(value)
         )
@@ -1544,7 +1545,8 @@ def is_mapping_type(
     Returns:
         ``True`` if value is a mapping, else ``False``.
     """
-    if (origin := get_origin(value)) not in (None, value):
+    origin = get_origin(value)
+    if origin is not None and origin is not value:
         return is_mapping_type(origin)
     try:
         return (
@@ -1625,7 +1627,7 @@ def is_namedtuple_type(
         if not isinstance(value, NamedTupleProtocol):
             return False
         for cls in inspect.getmro(value):  # type: ignore
-            if tuple in cls.__bases__:
+            if any(base is tuple for base in cls.__bases__):
                 return True
     except Exception:
         pass
@@ -1828,7 +1830,7 @@ def is_protocol(
         ``True`` if value is a protocol, else ``False``.
     """
     for cls in getattr(value, '__bases__', ()):
-        if cls in _ProtocolTypes:
+        if any(cls is protocol for protocol in _ProtocolTypes):
             return True
     return False
 
@@ -1844,7 +1846,8 @@ def is_literal(
     Returns:
         ``True`` if value is a typing.Literal, else ``False``.
     """
-    return get_origin(value) in _LiteralTypes
+    origin = get_origin(value)
+    return any(origin is literal for literal in _LiteralTypes)
 
 
 def is_literal_string(
@@ -1905,8 +1908,11 @@ def is_optional(
     """
     if is_annotated(type_):
         type_ = type_.__origin__
-    return get_origin(type_) in (Union, getattr(types, 'UnionType', Union)) \
-        and type(None) in get_args(type_)
+    origin = get_origin(type_)
+    return (
+        (origin is Union or origin is getattr(types, 'UnionType', Union))
+        and any(arg is type(None) for arg in get_args(type_))
+    )
 
 
 def get_type(
@@ -1929,7 +1935,8 @@ def get_type(
     Returns:
         The type.
     """
-    if (origin := get_origin(value)) not in (None, value):
+    origin = get_origin(value)
+    if origin is not None and origin is not value:
         return get_type(origin)
     if is_typing_alias(value):
         return value
@@ -1963,7 +1970,7 @@ def get_optional_type(
         type_ = type_.__origin__
     args = []
     for arg in get_args(type_):
-        if arg not in (None, type(None)):  # noqa: E721
+        if arg is not type(None):
             args.append(arg)
     if len(args) == 1:
         return args[0]
@@ -2366,7 +2373,7 @@ def get_attribute_description(
     """
     try:
         for base in inspect.getmro(cls):
-            if base == object:
+            if base is object:
                 continue
             descr = _get_attribute_description(
                 base,
@@ -2405,7 +2412,7 @@ def as_dataclass(
     for field in dataclasses.fields(cls):
         if (
             field.name in getattr(cls, '__annotations__', {})
-            and field.default_factory != dataclasses.MISSING
+            and field.default_factory is not dataclasses.MISSING
         ):
             setattr(cls, field.name, field)
     return dataclasses.dataclass(cls)
@@ -2523,7 +2530,8 @@ def iter_generic_bases(
     substitutes = dict(zip(parameters, get_args(type_)))
     if cls is type_ or substitutes:
         for base in bases:
-            if get_type(base) not in (object, Generic):
+            base_type = get_type(base)
+            if base_type is not object and base_type is not Generic:
                 yield from iter_generic_bases(
                     substitute_type_parameters(base, substitutes),
                 )
@@ -2561,10 +2569,10 @@ def inspect_sequence_type(
             t_args = get_args(base)
             if (
                 len(t_args) == 1
-                or len(t_args) == 2 and ... in t_args
+                or len(t_args) == 2 and any(t is ... for t in t_args)
             ):
                 for t in t_args:
-                    if t != ...:
+                    if t is not ...:
                         return t
     return Any
 
-- 
2.43.0


From 7d16d9f18f13187bd7e8afc3d69141553a6b4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 84/95] fix: a literal was marshaled to its value, which may be
 no element (an enum or bytes)

---
 marsh/schema/types/literal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/literal.py b/marsh/schema/types/literal.py
index 9c4f7e5..6e1a96d 100644
--- a/marsh/schema/types/literal.py
+++ b/marsh/schema/types/literal.py
@@ -91,7 +91,7 @@ class LiteralValueMarshalSchema(marsh.schema.MarshalSchema):
     def marshal(
         self,
     ) -> marsh.element.ElementType:
-        return get_args(self.value)[0]
+        return marsh.schema.MarshalSchema(get_args(self.value)[0]).marshal()
 
 
 @marsh.schema.register
-- 
2.43.0


From a26d08990126147056b3e02e0d791dadd2fbc823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 85/95] fix: a quoted name in a postponed TypedDict annotation
 may mean the class of another module

The value of a forward reference is kept by typing and used for equal
references of other modules if it is evaluated with the globals as the
locals, which is what get_type_hints does for typed dictionaries.
---
 marsh/schema/types/typeddict.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 10152b3..7ade1eb 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -69,10 +69,11 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> Sequence[str]:
         # the qualifiers of postponed annotations are
         # not part of the attributes of the type
+        # (as to `localns`, see `__init__`)
         return [
             name
             for name, type_
-            in get_type_hints(self.value, include_extras=True).items()
+            in get_type_hints(self.value, localns={}, include_extras=True).items()
             if (
                 get_origin(type_) is included
                 or (name in keys and get_origin(type_) is not excluded)
@@ -85,10 +86,12 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         **kwargs,
     ) -> None:
         super().__init__(*args, **kwargs)
+        # a forward reference keeps its value, and is used for other
+        # types as well, if the globals are used as the locals
         annotations = {
             name: self._strip_qualifiers(type_)
             for name, type_
-            in get_type_hints(self.value, include_extras=True).items()
+            in get_type_hints(self.value, localns={}, include_extras=True).items()
         }
         self.schemas = types.MappingProxyType(
             {
-- 
2.43.0


From 7eb6c486d737aac740f69acc43ca5c6e546ddc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 86/95] fix: config files were read in the encoding of the
 locale

---
 marsh/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index 8d6ad23..800d21b 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -59,13 +59,13 @@ class ConfigSchema(
         element: marsh.element.ElementType,
     ) -> None:
         encoded = self.dumps(element)
-        with open(self.value, 'w') as fp:
+        with open(self.value, 'w', encoding='utf-8') as fp:
             fp.write(encoded)
 
     def load(
         self,
     ) -> marsh.element.ElementType:
-        with open(self.value, 'r') as fp:
+        with open(self.value, 'r', encoding='utf-8') as fp:
             encoded = fp.read()
         return self.loads(encoded)
 
@@ -96,13 +96,13 @@ class JSONConfigIO(ConfigSchema):
         self,
         element: marsh.element.ElementType,
     ) -> None:
-        with open(self.value, 'w') as fp:
+        with open(self.value, 'w', encoding='utf-8') as fp:
             json.dump(element, fp)
 
     def load(
         self,
     ) -> marsh.element.ElementType:
-        with open(self.value, 'r') as fp:
+        with open(self.value, 'r', encoding='utf-8') as fp:
             return json.load(fp)
 
     def dumps(
@@ -132,13 +132,13 @@ class YAMLConfigIO(ConfigSchema):
         self,
         element: marsh.element.ElementType,
     ) -> None:
-        with open(self.value, 'w') as fp:
+        with open(self.value, 'w', encoding='utf-8') as fp:
             yaml.safe_dump(element, fp)
 
     def load(
         self,
     ) -> marsh.element.ElementType:
-        with open(self.value, 'r') as fp:
+        with open(self.value, 'r', encoding='utf-8') as fp:
             return yaml.load(fp, Loader=yaml.SafeLoader)
 
     def dumps(
-- 
2.43.0


From dbf915b235d9ea2a7aed70a5036d277b22ff839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:03 +0000
Subject: [PATCH 87/95] fix: callables and default factories that equal each
 other replaced one another

---
 marsh/schema/core/unmarshal.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 510a71d..95c5419 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -62,7 +62,7 @@ identified_default_types = {
 
 
 class _Identified:
-    """A default value that only equals itself."""
+    """A default value or factory that only equals itself."""
 
     def __init__(
         self,
@@ -109,6 +109,28 @@ def is_order_sensitive(
     return any(map(is_order_sensitive, get_args(value)))
 
 
+def is_compared_callable(
+    value: Any,
+) -> bool:
+    """Evaluates if a callable defines its own equality, in which case
+    it may equal another one that does something else.
+
+    Arguments:
+        value: The type to evaluate.
+
+    Returns:
+        ``True`` if it is an object with its own equality.
+    """
+    return (
+        marsh.utils.is_obj_instance(value)
+        and not isinstance(
+            value,
+            (types.MethodType, types.BuiltinMethodType, types.MethodWrapperType),
+        )
+        and type(value).__eq__ is not object.__eq__
+    )
+
+
 def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
@@ -298,7 +320,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if is_order_sensitive(value):
+        if is_order_sensitive(value) or is_compared_callable(value):
             return cls._build(
                 value=value,
                 *args,
@@ -306,6 +328,8 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             )
         if type(kwargs.get('default')) not in identified_default_types:
             kwargs['default'] = _Identified(kwargs['default'])
+        if 'default_factory' in kwargs:
+            kwargs['default_factory'] = _Identified(kwargs['default_factory'])
         return cls._cached_build(
             value=value,
             *args,
@@ -354,8 +378,9 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         *args,
         **kwargs,
     ):
-        if isinstance(kwargs.get('default'), _Identified):
-            kwargs['default'] = kwargs['default'].default
+        for name in ('default', 'default_factory'):
+            if isinstance(kwargs.get(name), _Identified):
+                kwargs[name] = kwargs[name].default
         return cls._build(
             value=value,
             *args,
-- 
2.43.0


From c4c7c4dfbfff0f064b31b6db8edfeb7e1452b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 88/95] fix: a class that is absent inside of another one was
 compared with it, its equality is up to its metaclass

---
 marsh/schema/template/structured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 58ed693..2c7ca5f 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -183,7 +183,8 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            if self.value in _absent.types:
+            # the equality of classes is up to their metaclass
+            if any(type_ is self.value for type_ in _absent.types):
                 # nothing would end the recursion
                 raise marsh.errors.MissingValueError(
                     type=self.value,
-- 
2.43.0


From 57f00e7f35c4477c66f44d442bfeefdfd14bfb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:49 +0000
Subject: [PATCH 89/95] fix: keys that are absent in a defaultdict, looked up
 by several threads

The input that initializes the values was shared while it was still being tried, so another thread could use one that does not work.
---
 marsh/schema/types/defaultdict.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index 9b2cdda..ca1d21a 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -30,12 +30,14 @@ class InitType(Generic[_T]):
     ) -> _T:
         if self.input is not self._sentinel:
             return self.schema.unmarshal(self.input)
-        for self.input in (marsh.MISSING, 0, '', None):
+        for element in (marsh.MISSING, 0, '', None):
             try:
-                return self.schema.unmarshal(self.input)
+                value = self.schema.unmarshal(element)
             except Exception:
-                pass
-        self.input = self._sentinel
+                continue
+            # only kept once it is known to work, other threads may be using it
+            self.input = element
+            return value
         raise marsh.errors.MarshError(
             'could not automatically initialize the type '
             f'{self.schema.doc_type()}',
-- 
2.43.0


From a76b7162d44b1a751c31ddd90b06d676b1267025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 90/95] fix: config kinds that are registered after a lookup
 were not found by name

---
 marsh/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 800d21b..ecb657d 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -223,7 +223,6 @@ def find_config(
     raise marsh.errors.ConfigFileError(err_msg)
 
 
-@marsh.utils.cache(maxsize=32, safe=False)
 def config_type_is_supported(
     path: str,
 ) -> bool:
-- 
2.43.0


From 7e43f6e4e3918a9b251364651698b206506fd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 91/95] fix: keys that can not be hashed are an UnmarshalError

---
 marsh/schema/template/mapping.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/mapping.py b/marsh/schema/template/mapping.py
index c07ad22..4917ab2 100644
--- a/marsh/schema/template/mapping.py
+++ b/marsh/schema/template/mapping.py
@@ -69,7 +69,14 @@ class MappingUnmarshalSchema(UnmarshalSchema[_T]):
             with marsh.errors.prepend(key):
                 casted_key = self.key_schema.unmarshal(key)
                 casted_value = self.value_schema.unmarshal(element[key])
-            prepared_input[casted_key] = casted_value
+                try:
+                    prepared_input[casted_key] = casted_value
+                except Exception as err:
+                    raise marsh.errors.UnmarshalError(
+                        f'failed to construct mapping: {err}',
+                        element=element,
+                        type=self.value,
+                    ) from err
         try:
             return self.construct(prepared_input)
         except marsh.errors.MarshError:
-- 
2.43.0


From 80443ed5a2976880d9f9dfd42773ae3367df0ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 92/95] fix: types that consist of collections of themselves
 could not be documented or selected from

---
 marsh/schema/core/unmarshal.py | 48 ++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 95c5419..84fc59e 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -10,6 +10,7 @@ from typing import (
     ForwardRef,
     Generic,
     Iterable,
+    List,
     Literal,
     Mapping,
     NamedTuple,
@@ -784,6 +785,19 @@ class WrapperUnmarshalSchema(
         return self.schema.unmarshal(element)
 
 
+class _Entered(threading.local):
+    """Recursive types that are currently selected from or described."""
+
+    def __init__(
+        self,
+    ) -> None:
+        self.types: List[Any] = []
+
+
+_selected = _Entered()
+_described = _Entered()
+
+
 class RecursiveReferenceUnmarshalSchema(WrapperUnmarshalSchema):
 
     def __str__(
@@ -796,6 +810,40 @@ class RecursiveReferenceUnmarshalSchema(WrapperUnmarshalSchema):
     ) -> str:
         return UnmarshalSchema.__repr__(self)
 
+    def select(
+        self,
+        path: str,
+    ) -> UnmarshalSchema:
+        # collections do not consume any of the path
+        if any(
+            type_ is self.value and path == selected_path
+            for type_, selected_path in _selected.types
+        ):
+            return UnmarshalSchema.select(self, path)
+        _selected.types.append((self.value, path))
+        try:
+            return super().select(path)
+        finally:
+            _selected.types.pop()
+
+    def doc_field_type(
+        self,
+    ) -> str:
+        # a type may consist of nothing but collections of itself
+        if any(type_ is self.value for type_ in _described.types) or (
+            _described.types
+            and not isinstance(
+                self.inner_schema,
+                marsh.schema.template.StructuredUnmarshalSchema,
+            )
+        ):
+            return self.doc_type()
+        _described.types.append(self.value)
+        try:
+            return super().doc_field_type()
+        finally:
+            _described.types.pop()
+
     def doc(
         self,
         depth: int = 0,
-- 
2.43.0


From 5e16c76ff883ee4b0af25c51e0cf1d08ebac0957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 93/95] fix: the components of a namespace were missing from
 its documentation

---
 marsh/schema/types/namespace.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 117cd62..2fb285a 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -89,6 +89,15 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
             },
         )
 
+    def doc(
+        self,
+        depth: int = 0,
+    ) -> marsh.schema.UnmarshalSchema.Doc:
+        # The wrapped schema knows nothing about the components.
+        doc = super().doc(depth)
+        doc.special_fields = self.doc_special_fields()
+        return doc
+
     def doc_special_fields(
         self,
     ) -> Sequence[marsh.schema.UnmarshalSchema.Doc.SpecialField]:
-- 
2.43.0


From d25ab163c58d2326f4a7eb6f39b74795c15a7b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 94/95] fix: attributes of a function replaced those of its
 entry point

---
 marsh/_functional.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marsh/_functional.py b/marsh/_functional.py
index d7923d2..7e97e43 100644
--- a/marsh/_functional.py
+++ b/marsh/_functional.py
@@ -267,7 +267,11 @@ def main(
             epilog=epilog,
             help_depth=help_depth,
         )
-        return functools.wraps(fn)(wrapped)
+        # attributes of the function may have any name
+        attributes = dict(vars(wrapped))
+        functools.update_wrapper(wrapped, fn)
+        vars(wrapped).update(attributes)
+        return wrapped
 
     if fn is None:
         return main_decorator
-- 
2.43.0


From d2610bd1d61eb13778ef675f6f8e3702e4052db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 95/95] fix: exceptions of collections that can not be
 constructed empty were raised as they are for missing values

---
 marsh/schema/template/mapping.py  | 2 +-
 marsh/schema/template/sequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/mapping.py b/marsh/schema/template/mapping.py
index 4917ab2..d0d6c4d 100644
--- a/marsh/schema/template/mapping.py
+++ b/marsh/schema/template/mapping.py
@@ -54,7 +54,7 @@ class MappingUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            return self.construct({})
+            element = {}
         if not marsh.utils.is_mapping(element):
             raise marsh.errors.UnmarshalError(
                 (
diff --git a/marsh/schema/template/sequence.py b/marsh/schema/template/sequence.py
index 91825ce..9ae249d 100644
--- a/marsh/schema/template/sequence.py
+++ b/marsh/schema/template/sequence.py
@@ -47,7 +47,7 @@ class SequenceUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            return self.construct(())
+            element = ()
         if not marsh.utils.is_sequence(element):
             raise marsh.errors.UnmarshalError(
                 (
-- 
2.43.0

