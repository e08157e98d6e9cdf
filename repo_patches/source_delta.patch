From 914465cd1fcfa3b9082478722df33af09ad7e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 01/61] fix: String.set reports undecodable bytes as an
 adaptation failure

---
 flatland/schema/scalars.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 6afd75b..81969b2 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -180,10 +180,11 @@ class String(Scalar):
         """
         if value is None:
             return None
-        elif self.strip:
-            return six.text_type(value).strip()
-        else:
-            return six.text_type(value)
+        try:
+            value = six.text_type(value)
+        except UnicodeDecodeError:
+            raise AdaptationError()
+        return value.strip() if self.strip else value
 
     def serialize(self, value):
         """Return a Unicode representation.
-- 
2.43.0


From e2ffef5f686ce5be11442b032e9ce18c94c07d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 02/61] fix: Decimal.set rejects NaNs that cannot be compared
 or formatted

---
 flatland/schema/scalars.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 81969b2..f6a9a1a 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -247,13 +247,12 @@ class Number(Scalar):
             value = value.strip()  # decimal.Decimal doesn't like whitespace
         try:
             native = self.type_(value)
+            negative = not self.signed and native < 0
         except (ValueError, TypeError, ArithmeticError):
             raise AdaptationError()
-        else:
-            if not self.signed:
-                if native < 0:
-                    raise AdaptationError()
-            return native
+        if negative:
+            raise AdaptationError()
+        return native
 
     def serialize(self, value):
         """Generic numeric serialization.
@@ -310,6 +309,17 @@ class Decimal(Number):
     format = u'%f'
     """``u'%f'``"""
 
+    def adapt(self, value):
+        """Generic numeric coercion, rejecting signaling NaNs.
+
+        :returns: an instance of :attr:`type_` or ``None``
+
+        """
+        native = Number.adapt(self, value)
+        if isinstance(native, decimal.Decimal) and native.is_snan():
+            raise AdaptationError()
+        return native
+
 
 class Boolean(Scalar):
     """Element type for Python's ``bool``."""
-- 
2.43.0


From df5a8835e0ca6da90ed64df7805090a834bbe903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 03/61] fix: Sequence item assignment parents the assigned
 element

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 489552b..01976b4 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -332,7 +332,7 @@ class Sequence(Container, list):
         else:
             if not isinstance(value, Element):
                 value = self.member_schema(value=value)
-                value.parent = self
+            value.parent = self
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-- 
2.43.0


From 18ed90c2d6fe02d037cb8f51c777341f25da0a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 04/61] fix: Sequence += wraps and parents its members like
 extend()

---
 flatland/schema/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 01976b4..381354f 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -308,6 +308,10 @@ class Sequence(Container, list):
         for value in iterable:
             self.append(value)
 
+    def __iadd__(self, iterable):
+        self.extend(iterable)
+        return self
+
     def insert(self, index, value):
         """Insert *value* at *index*.
 
-- 
2.43.0


From 61a1fc9e0a9bfe380385c60ba04e2d265657719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 05/61] fix: List.pop returns the member, not its slot

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 381354f..0023474 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -519,7 +519,7 @@ class List(Sequence):
         return self.__delitem__(slice(i, j))
 
     def pop(self, index=-1):
-        value = list.pop(self, index)
+        value = list.pop(self, index).element
         self._renumber()
         value.parent = None
         return value
-- 
2.43.0


From 4f690b0a2d1a15be20173ed1c6b738ce3939dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 06/61] fix: List item assignment accepts elements like its
 other mutators

---
 flatland/schema/containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 0023474..cec3d03 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -498,6 +498,9 @@ class List(Sequence):
             value = [self._new_slot(item) for item in value]
             list.__setitem__(self, index, value)
             self._renumber()
+        elif isinstance(value, Element):
+            list.__setitem__(self, index, self._new_slot(value))
+            self._renumber()
         else:
             slot = self[index]
             slot.set(value)
-- 
2.43.0


From 1e2bda685506ef00d957745a4a69dd4dfdc3e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 07/61] fix: JoinedString.set returns False for values that
 cannot be iterated

---
 flatland/schema/compound.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 230d35b..b058a01 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -297,7 +297,11 @@ class JoinedString(Array, String):
         if isinstance(value, (list, tuple)):
             values = value
         elif not isinstance(value, six.string_types):
-            values = list(value)
+            try:
+                values = list(value)
+            except TypeError:
+                del self[:]
+                return False
         elif self.separator_regex:
             # a basestring, regexp separator
             values = self.separator_regex.split(value)
-- 
2.43.0


From e0c9c7f7a4b27817b33d882f04247ac879f0d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 08/61] fix: Compound.set and JoinedString.set record .raw

---
 flatland/schema/compound.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index b058a01..e01925d 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -165,6 +165,7 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
     del set_value
 
     def set(self, value):
+        self.raw = value
         try:
             # TODO: historically explode() did not need to have a return value
             # but it would be nice to return it form set() as below.
@@ -294,6 +295,7 @@ class JoinedString(Array, String):
     children_flattenable = False
 
     def set(self, value):
+        self.raw = value
         if isinstance(value, (list, tuple)):
             values = value
         elif not isinstance(value, six.string_types):
-- 
2.43.0


From e9a915e4e3ae5980cbbd8561e59a968745854875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 09/61] fix: JoinedString splits a string default instead of
 iterating its characters

---
 flatland/schema/compound.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index e01925d..50fcf82 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -325,6 +325,11 @@ class JoinedString(Array, String):
     def _set_flat(self, pairs, sep):
         return Scalar._set_flat(self, pairs, sep)
 
+    def set_default(self):
+        default = self.default_value
+        if default is not None and default is not Unspecified:
+            self.set(default)
+
     @property
     def value(self):
         """A read-only :attr:`separator`-joined string of child values."""
-- 
2.43.0


From 4458d60512e5ff7cc8f14790a59d3af98b663c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 10/61] fix: flat keys that merely begin with a field name do
 not reach that field

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index cec3d03..3463392 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -863,7 +863,7 @@ class Mapping(Container, dict):
             field = schema.name
             accum = []
             for key, value in possibles:
-                if key.startswith(field):
+                if key == field or key.startswith(field + sep):
                     accum.append((key, value))
             if accum:
                 if dict.__contains__(self, field):
-- 
2.43.0


From a84e4afaf1dbf29e609a3ca3fd4a9206d7a38d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 11/61] fix: DateYYYYMMDD.set(None) clears its fields instead
 of keeping stale ones

---
 flatland/schema/compound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 50fcf82..12b3c39 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -239,7 +239,7 @@ class DateYYYYMMDD(Compound, Date):
 
             for attrib, child_schema in zip(self.used, self.field_schema):
                 self[child_schema.name].set(
-                    getattr(value, attrib))
+                    None if value is None else getattr(value, attrib))
         except (AdaptationError, TypeError):
             for child_schema in self.field_schema:
                 self[child_schema.name].set(None)
-- 
2.43.0


From 8c6f6f6d3c35868c152a332f25ab6018b8ad1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 12/61] fix: DateYYYYMMDD.set returns False for values it
 cannot adapt

---
 flatland/schema/compound.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 12b3c39..9681eca 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -243,6 +243,7 @@ class DateYYYYMMDD(Compound, Date):
         except (AdaptationError, TypeError):
             for child_schema in self.field_schema:
                 self[child_schema.name].set(None)
+            return False
 
 
 class JoinedString(Array, String):
-- 
2.43.0


From 811d071e826e887df87e269e67086ca002bd09dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 13/61] fix: instance properties pop() and setdefault() leave
 the class and deletion marks alone

---
 flatland/schema/properties.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 3e1981e..fce61da 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -201,15 +201,20 @@ class _InstanceLookup(DictLike):
 
     def pop(self, key, *default):
         try:
-            return self.local.pop(key)
+            current = self[key]
         except KeyError:
-            return self.class_lookup.pop(key, *default)
+            if not default:
+                raise
+            return default[0]
+        del self[key]
+        return current
 
     def setdefault(self, key, default):
         try:
             return self[key]
         except KeyError:
-            return self.local.setdefault(key, default)
+            self[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From 56ae26d7a16b7b4f18e3ecca90607e2c45a3c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 14/61] fix: class properties setdefault() honours inherited
 and deleted keys

---
 flatland/schema/properties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index fce61da..3ae7265 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -116,7 +116,11 @@ class _TypeLookup(DictLike):
         return current
 
     def setdefault(self, key, default):
-        return self._base_frame.setdefault(key, default)
+        try:
+            return self[key]
+        except KeyError:
+            self[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From f40772465ee8d12ce025e60d941026c220481656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 15/61] fix: pathexpr returns the compiled expression when its
 cache is full

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index f82cf3a..51cc517 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -45,7 +45,7 @@ def pathexpr(expr):
         if len(expression_cache) < max_cache_size:
             return expression_cache.setdefault(expr, compiled)
         else:
-            return compile
+            return compiled
 
 
 class PathExpression(object):
-- 
2.43.0


From 351d059dcf469bf2f3eca0b4326722c70ed0db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 16/61] fix: path slices honour a stop of 0

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 51cc517..68d5cef 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -184,7 +184,7 @@ def _parse_slice(pattern):
 
     segs = pattern.split(':', 2)
     start = segs[0] and int(segs[0]) or 0
-    stop = segs[1] and int(segs[1]) or None
+    stop = int(segs[1]) if segs[1] else None
 
     if len(segs) < 3:
         return (SLICE, slice(start, stop))
-- 
2.43.0


From 0cde4028a54c84d0c3d9977e62a679f1b23c8895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 17/61] fix: .. in paths reaches parents that are false as
 booleans

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 68d5cef..6e9ab29 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -64,7 +64,7 @@ class PathExpression(object):
                 if op is TOP:
                     el = el.root
                 elif op is UP:
-                    if el.parent:
+                    if el.parent is not None:
                         el = el.parent
                 elif op is HERE:
                     pass
-- 
2.43.0


From 74d99e41c14ff3e50c1103d2b2c3d11427f2f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 18/61] fix: malformed slices in paths are names, not
 ValueErrors

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 6e9ab29..55e9404 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -21,7 +21,7 @@ _tokenize_re = re.compile(r"""
     | # /
       (?<!\\)/
     | # [1:2:3]
-      (?<!\\)\[(-?\d*:?-?\d*\:?-?\d*)(?<!\\)\](?=$|/|\[)
+      (?<!\\)\[(-?\d+|(?:-?\d+)?:(?:-?\d+)?(?::(?:-?\d+)?)?)\](?=$|/|\[)
     | # [bogus]
       (?<!\\)\[[^\]]*(?<!\\)\](?=$|/|\[)
     | # . or .. at start
-- 
2.43.0


From d7bf3066733cc4fb6cd8a2b3a5300f8382ee2293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:07 +0000
Subject: [PATCH 19/61] fix: el() raises KeyError for path parts that cannot
 index a sequence

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 3463392..b4abe09 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -282,7 +282,7 @@ class Sequence(Container, list):
     def _index(self, name):
         try:
             idx = int(name)
-        except ValueError:
+        except (TypeError, ValueError):
             raise IndexError(name)
         return self[idx]
 
-- 
2.43.0


From 4c825c119f5daa9b245c4b3f7ee5ff61db6b3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 20/61] fix: validate(recurse=False) keeps a failure found
 while descending

---
 flatland/schema/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 66c60f4..0b2d240 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -792,7 +792,7 @@ class Element(_BaseElement):
             up = self._validate(state, False)
             # an Unevaluated ascent validator does not override the results
             # of descent validation
-            if up is not Unevaluated:
+            if up is not Unevaluated and self.valid:
                 self.valid = bool(up)
             return self.valid
 
-- 
2.43.0


From 15f614d73efdce78da0a04b35d91aa3a1b6e7359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 21/61] fix: message expansion works with sequence and string
 states

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 4d6c342..32b5b59 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -186,7 +186,7 @@ class Validator(object):
         if hasattr(state, '__getitem__'):
             try:
                 return state[type]
-            except KeyError:
+            except (LookupError, TypeError):
                 pass
 
         if type == 'ugettext':
-- 
2.43.0


From c397d491ac19c8324bda62477eb28ec2afbb24c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 22/61] fix: plural messages accept counts that are not numeric
 text

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 32b5b59..5e12dac 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -243,7 +243,7 @@ class Validator(object):
                 n = format_map[n_key]
                 try:
                     n = int(n)
-                except TypeError:
+                except (TypeError, ValueError):
                     pass
             except KeyError:
                 n = n_key
-- 
2.43.0


From 5fbbf58ee04cf55676b6640dca1d19d084ab2157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 23/61] fix: HTTPURLValidator requires an http or https scheme
 as documented

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index cf5a2a1..c9be2d4 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -250,7 +250,7 @@ class HTTPURLValidator(Validator):
 
     all_parts = ('scheme', 'username', 'password', 'hostname', 'port',
                  'path', 'params', 'query', 'fragment')
-    required_parts = dict(schema=('http', 'https'), hostname=True)
+    required_parts = dict(scheme=('http', 'https'), hostname=True)
     forbidden_parts = dict(username=True, password=True)
     urlparse = urlparse
 
-- 
2.43.0


From 2903125fb235e62b0582b41abc348971638c1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 24/61] fix: HTTPURLValidator treats empty required parts as
 missing

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index c9be2d4..13086de 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -269,7 +269,7 @@ class HTTPURLValidator(Validator):
                 return self.note_error(element, state, 'bad_format')
             required = self.required_parts.get(part)
             if required is True:
-                if value is None:
+                if not value:
                     return self.note_error(element, state, 'required_part')
             elif required:
                 if value not in required:
-- 
2.43.0


From 8a204c9f87724d8a48406480c482299ff1e6349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 25/61] fix: HTTPURLValidator reports unparseable URLs instead
 of raising

---
 flatland/validation/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 13086de..d5db309 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -258,7 +258,10 @@ class HTTPURLValidator(Validator):
         url = element.value
         if url is None:
             return True
-        parsed = self.urlparse.urlparse(url)
+        try:
+            parsed = self.urlparse.urlparse(url)
+        except Exception:
+            return self.note_error(element, state, 'bad_format')
 
         for part in self.all_parts:
             try:
-- 
2.43.0


From 7d43c875c89ec4c7dfd404cd95dda2974a3dabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 26/61] fix: NANPphone formats numbers with extensions

---
 flatland/validation/string.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 8ef3c59..43467ea 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -39,8 +39,10 @@ class NANPphone(Validator):
         else:
             if not self.extensions:
                 return self.note_error(element, state, 'noext')
-            value = self.fmt_ext % (value[0:3], value[3:6], value[6:10],
-                                    value[10:])
+            value = self.fmt_ext % (int(value[0:3]),
+                                    int(value[3:6]),
+                                    int(value[6:10]),
+                                    int(value[10:]))
 
         element.set(value)
         return True
-- 
2.43.0


From 7f4273817890b0988e788c7d0a150fabd38ea247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 27/61] fix: NANPnpa_nxx stores errors_to and accepts message
 overrides

---
 flatland/validation/number.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/number.py b/flatland/validation/number.py
index dc6081b..34b74c0 100644
--- a/flatland/validation/number.py
+++ b/flatland/validation/number.py
@@ -36,10 +36,11 @@ class NANPnpa_nxx(Validator):
         assert isinstance(nxx_element, six.string_types)
         assert isinstance(errors_to, (six.string_types, type(None)))
 
-        Validator.__init__(self, *kw)
+        Validator.__init__(self, **kw)
 
         self.npa = npa_element
         self.nxx = nxx_element
+        self.errors_to = errors_to
         self.lookup = lookup
         self.method = method
 
@@ -48,7 +49,7 @@ class NANPnpa_nxx(Validator):
         nxx = element.find(self.nxx, single=True).value
 
         if self.errors_to:
-            err = element.find(self.errors_to)
+            err = element.find(self.errors_to, single=True)
         else:
             err = element
 
-- 
2.43.0


From 638580dcc0b0997df2d4d6bc7beb35382381d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 28/61] fix: sequence length validators count members, not
 characters of the value

---
 flatland/validation/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/validation/containers.py b/flatland/validation/containers.py
index 8b0cf44..59ea22e 100644
--- a/flatland/validation/containers.py
+++ b/flatland/validation/containers.py
@@ -152,7 +152,7 @@ class HasAtLeast(Validator):
         if not self.minimum:
             return True
 
-        if element.value is None or len(element.value) < self.minimum:
+        if len(element) < self.minimum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -201,7 +201,7 @@ class HasAtMost(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        if element.value and len(element.value) > self.maximum:
+        if len(element) > self.maximum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -279,7 +279,7 @@ class HasBetween(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        length = len(element.value) if element.value is not None else 0
+        length = len(element)
         if self.minimum <= length <= self.maximum:
             return True
 
-- 
2.43.0


From d4911aab5144cbb91896cc7607be47c534fdb144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 29/61] fix: MapEqual works with its default transform

---
 flatland/validation/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index 3afc28f..a85162b 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -544,7 +544,7 @@ class MapEqual(Validator):
     unequal = N_(u'%(labels)s and %(last_label)s do not match.')
 
     field_paths = ()
-    transform = lambda el: el
+    transform = staticmethod(lambda el: el)
 
     def __init__(self, *field_paths, **kw):
         """Construct a MapEqual.
-- 
2.43.0


From 9c478ba7758584ee3c0cd4b46adedb1d0a54f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 30/61] fix: refused card types are reported instead of raising
 TypeError

---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 485665d..2e8158c 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -67,7 +67,7 @@ class CreditCardNumber(Long):
 
             return u'We accept %s' % types
 
-        not_accepted = _formatter
+        not_accepted = staticmethod(_formatter)
 
         def validate(self, element, state):
             type_ = _card_type(element.value)
-- 
2.43.0


From 35e44f908c94fbb69c6e85d65fa4b2dd1e798001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 31/61] fix: list each accepted card type once

---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 2e8158c..f8cab8d 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -58,7 +58,7 @@ class CreditCardNumber(Long):
         def _formatter(element, state):
             accepted = element.accepted
             if len(accepted) > 2:
-                types = (', '.join(label for label, in accepted) +
+                types = (', '.join(label for label, in accepted[:-1]) +
                        ', and ' + accepted[-1][0])
             elif len(accepted) == 2:
                 types = ' and '.join(label for label, in accepted)
-- 
2.43.0


From 0b5e6060fda930b36b014ed4b4765da4b3952cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 32/61] fix: recognize 13 digit Visa numbers

---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index f8cab8d..448a069 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -76,7 +76,7 @@ class CreditCardNumber(Long):
 
             return self.note_error(element, state, 'not_accepted')
 
-_re_visa = re.compile(r'^4\d{12}\d{3}?$')
+_re_visa = re.compile(r'^4\d{12}(?:\d{3})?$')
 _re_mc   = re.compile(r'^5[1-5]\d{14}$')
 _re_amex = re.compile(r'^3[47]\d{13}$')
 _re_disc = re.compile(r'^6011\d{12}$')
-- 
2.43.0


From aa51f8f59a36352993bd93c4325fa430cbfa4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 33/61] fix: luhn10 terminates for negative numbers

---
 flatland/util/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/util/base.py b/flatland/util/base.py
index 8ae812e..7a7a5be 100644
--- a/flatland/util/base.py
+++ b/flatland/util/base.py
@@ -221,6 +221,9 @@ def re_uescape(pattern):
 def luhn10(number):
     """Return True if the number passes the Luhn checksum algorithm."""
 
+    if number < 0:
+        return False
+
     sum = 0
     while number:
         r = number % 100
-- 
2.43.0


From eda1949e3b070583dfaa86eb993a4d81389f00ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 34/61] fix: form:with restores the render context when its
 content fails

---
 flatland/out/genshi.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 5423b0f..a9c3cc2 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -220,11 +220,13 @@ class With(RenderContextManipulator):
                                           ctxt, vars)
 
         render_context.push()
-        render_context.update(attrs)
-        assert not directives
-        for event in stream:
-            yield event
-        render_context.pop()
+        try:
+            render_context.update(attrs)
+            assert not directives
+            for event in stream:
+                yield event
+        finally:
+            render_context.pop()
 
 
 class Set(RenderContextManipulator):
-- 
2.43.0


From 7ab44740a2a944f006cc6e7fc7d95dcb0a7f8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 35/61] fix: set_by_object includes renamed attributes
 regardless of omit

---
 flatland/schema/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index b4abe09..130dc5a 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1085,7 +1085,8 @@ class Dict(Mapping, dict):
                                   if value in attributes)
         if omit:
             omit = list(omit)
-            attributes.difference_update(omit)
+            attributes.difference_update(
+                set(omit).difference(key for key, value in rename or ()))
 
         possible = ((attr, getattr(obj, attr))
                     for attr in attributes
-- 
2.43.0


From 3ba0bde8649d1b59bf861d2e3c099653746f6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 36/61] fix: set_by_object fills the declared fields a
 SparseDict does not hold yet

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 130dc5a..0b720ca 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1077,7 +1077,7 @@ class Dict(Mapping, dict):
           >>> new_user = User(**user_keywords)
 
         """
-        fields = set(six.iterkeys(self))
+        fields = set(self.field_schema_mapping)
         attributes = fields.copy()
         if rename:
             rename = list(to_pairs(rename))
-- 
2.43.0


From f284f1e2a73f41a87540092ee0cf61d544d693d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 37/61] fix: a newline after a flat key is not ignored

---
 flatland/schema/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 0b720ca..b71e881 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -559,10 +559,10 @@ class List(Sequence):
             return
 
         if self.name:
-            regex = re.compile(u'^%s(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^%s(\\d+)(?:%s|\\Z)' % (
                 re_uescape(self.name + sep), re_uescape(sep)), re.UNICODE)
         else:
-            regex = re.compile(u'^(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^(\\d+)(?:%s|\\Z)' % (
                 re_uescape(sep)), re.UNICODE)
 
         indexes = defaultdict(list)
@@ -673,7 +673,7 @@ class Array(Sequence):
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
         else:
-            regex = re.compile(u'^(%s(?:%s|$))' % (
+            regex = re.compile(u'^(%s(?:%s|\\Z))' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
                 m = regex.match(key)
-- 
2.43.0


From a1937004a8b24c498c59fdaf033a59e9c2b78c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 38/61] fix: flat keys that name no member of an Array add no
 blank members

---
 flatland/schema/containers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index b71e881..d25d40b 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -670,6 +670,8 @@ class Array(Sequence):
                     key = None
                 if child_name and key != child_name:
                     continue
+                elif key and not child_name:
+                    continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
         else:
@@ -680,7 +682,7 @@ class Array(Sequence):
                 if not m:
                     continue
                 remainder = key[m.end():] or None
-                if child_name and not remainder:
+                if child_name and remainder != child_name:
                     continue
                 elif remainder and not child_name:
                     continue
-- 
2.43.0


From c3e6d3f6cc8f639eeae35a0a189f926131f50825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 39/61] fix: temporal types do not accept a trailing newline
 when strip is off

---
 flatland/schema/scalars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index f6a9a1a..94a57f1 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -532,7 +532,7 @@ class DateTime(Temporal):
     type_ = datetime.datetime
     regex = re.compile(
         u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2}) '
-        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = (u'%(year)04i-%(month)02i-%(day)02i '
               u'%(hour)02i:%(minute)02i:%(second)02i')
     used = (u'year', u'month', u'day', u'hour', u'minute', u'second')
@@ -547,7 +547,7 @@ class Date(Temporal):
 
     type_ = datetime.date
     regex = re.compile(
-        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})$')
+        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})\\Z')
     format = u'%(year)04i-%(month)02i-%(day)02i'
     used = (u'year', u'month', u'day')
 
@@ -561,7 +561,7 @@ class Time(Temporal):
 
     type_ = datetime.time
     regex = re.compile(
-        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = u'%(hour)02i:%(minute)02i:%(second)02i'
     used = (u'hour', u'minute', u'second')
 
-- 
2.43.0


From 12eb9862314601f6cfdbe943c211699b23299cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 40/61] fix: IsEmail refuses a trailing newline

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index d5db309..b3bdaa3 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -67,7 +67,7 @@ class IsEmail(Validator):
 
     local_part_pattern = None
 
-    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+$',
+    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+\\Z',
                                 re.IGNORECASE)
 
     def validate(self, element, state):
-- 
2.43.0


From fa35b072f1684813987738efbb7a10a7f3ab636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 41/61] fix: fq_name() of Array members is their position, as
 el() expects

---
 flatland/schema/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 0b2d240..b1da643 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -475,6 +475,15 @@ class Element(_BaseElement):
                 parts.append(mask)
                 mask = None
                 continue
+            elif isinstance(element.parent, list):
+                # members of slotless sequences are indexed by position, too
+                for index, member in enumerate(element.parent):
+                    if member is element:
+                        parts.append(six.text_type(str(index)))
+                        break
+                else:
+                    parts.append(element.name)
+                continue
             parts.append(element.name)
         return sep + sep.join(parts)
 
-- 
2.43.0


From ef1b734d8dc39cbdaf6ed7c1c6f2bbca049fd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:05 +0000
Subject: [PATCH 42/61] fix: a bracketed name after a / in a path does not
 swallow the step before it

---
 flatland/schema/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 55e9404..22e773c 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -131,7 +131,8 @@ def tokenize(path):
             tokens.append(_parse_slice(slice_spec))
 
         # /foo/bar[quux]/ -> 'foo', 'bar[quux]'
-        elif token.startswith('[') and last_type is NAME:
+        elif (token.startswith('[') and last_type is NAME and
+              last != '/'):
             previous = tokens.pop()
             last = last + _unescape_re.sub(r'\1', token)
             tokens.append((previous[0], last))
-- 
2.43.0


From 1254f9e2d6c7d971ff49b28c0b09d3e7b59907da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 43/61] fix: flatten() leaves out children of nested elements
 that do not flatten theirs

---
 flatland/schema/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index b1da643..a68964e 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -704,9 +704,18 @@ class Element(_BaseElement):
         if self.children_flattenable:
             pairs.extend((e.flattened_name(sep), value(e))
                          for e in self.all_children
-                         if e.flattenable)
+                         if e.flattenable and self._flattens(e))
         return pairs
 
+    def _flattens(self, element):
+        """False if something between self and *element* hides its children."""
+        for parent in element.parents:
+            if parent is self:
+                return True
+            elif not parent.children_flattenable:
+                return False
+        return True
+
     def set(self, value):
         """Assign the native and Unicode value.
 
-- 
2.43.0


From f5ac6710958d60b25a34715bd0e69327bbc7c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 44/61] fix: date fields follow optional even if the base class
 was used before

---
 flatland/schema/compound.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 9681eca..80f2c50 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -196,13 +196,22 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
 
 class DateYYYYMMDD(Compound, Date):
 
+    # field_schema before and after missing fields were generated
+    _generated_fields = (None, None)
+
     @classmethod
     def __compound_init__(cls):
-        assert len(cls.field_schema) < 4
-        if len(cls.field_schema) == 3:
+        declared, completed = cls._generated_fields
+        if completed is None or cls.field_schema is not completed:
+            declared = cls.field_schema
+        # else inherited from a class that was already initialized: generate
+        # the missing fields anew, with the settings of this class
+
+        assert len(declared) < 4
+        if len(declared) == 3:
             return
 
-        fields = list(cls.field_schema)
+        fields = list(declared)
         optional = cls.optional
 
         if len(fields) == 0:
@@ -216,6 +225,7 @@ class DateYYYYMMDD(Compound, Date):
                                                       optional=optional))
 
         cls.field_schema = fields
+        cls._generated_fields = (declared, fields)
 
     #if any(not field.name for field in fields):
     #    raise TypeError("Child fields of %s %r must be named." %
-- 
2.43.0


From 2993c1161fcc3c906b43a0c70b50632a6f4a3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:07 +0000
Subject: [PATCH 45/61] fix: classes sharing a Properties object do not share
 later changes

---
 flatland/schema/properties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 3ae7265..fac7710 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -144,7 +144,7 @@ class _TypeLookup(DictLike):
             if cls not in self.map:
                 if member is None or id(member) != self.descriptor_id:
                     continue
-                self.map.setdefault(cls, member.initial_set)
+                self.map.setdefault(cls, dict(member.initial_set))
             yield self.map[cls]
             if member is not None and id(member) == self.descriptor_id:
                 break
@@ -158,7 +158,8 @@ class _TypeLookup(DictLike):
         if 'properties' in self.base.__dict__:
             member = self.base.__dict__['properties']
             if id(member) == self.descriptor_id:
-                return self.map.setdefault(self.base, member.initial_set)
+                return self.map.setdefault(self.base,
+                                           dict(member.initial_set))
         return self.map.setdefault(self.base, {})
 
 
-- 
2.43.0


From 6593ca194a068dee05ec3d68117480c483ae6c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 46/61] fix: Generator.tag() renders known tags like their own
 methods do

---
 flatland/out/markup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 2a18721..da317de 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -7,6 +7,7 @@ import six
 
 _default_settings = {u'ordered_attributes': True}
 _static_attribute_order = [u'type', u'name', u'value']
+_always_paired_tags = (u'form', u'textarea', u'select', u'option')
 
 
 class Generator(Context):
@@ -197,10 +198,12 @@ class Generator(Context):
         if isinstance(tagname, str):  # pragma: nocover
             tagname = six.text_type(tagname)
         tagname = tagname.lower()
+        tag = self._tag(tagname, tagname == u'input',
+                        tagname in _always_paired_tags)
         if bind is None and not attributes:
-            return self._tag(tagname)
+            return tag
         else:
-            return self._tag(tagname)(bind, **attributes)
+            return tag(bind, **attributes)
 
     def _tag(self, tagname, empty_in_html=False, always_paired=False):
         if self._tags[tagname]:
-- 
2.43.0


From 080eb36486209123f97fad483b7ebb9ee7754885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:01 +0000
Subject: [PATCH 47/61] fix: form:set evaluates filters like form:with

---
 flatland/out/genshi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index a9c3cc2..48349f5 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -238,7 +238,12 @@ class Set(RenderContextManipulator):
             render_context = ctxt['flatland_render_context']
         except KeyError:
             ctxt['flatland_render_context'] = render_context = Context()
-        render_context.update(self.attributes)
+        attrs = self.attributes
+        if 'filters' in attrs:
+            attrs = attrs.copy()
+            attrs['filters'] = _eval_expr(Expression(attrs['filters']),
+                                          ctxt, vars)
+        render_context.update(attrs)
         assert not directives
         return stream
 
-- 
2.43.0


From 973594718c4a153501fd9a7af4d37c6c3576b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:01 +0000
Subject: [PATCH 48/61] fix: options with control attributes work in a bound
 select

---
 flatland/out/genshi.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 48349f5..4db916a 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -339,7 +339,16 @@ def _bind_unbound_tags(stream, qname, bind):
                 if isinstance(d, Binding):
                     break
             else:
-                substream = list(_bind_unbound_tags(substream, qname, bind))
+                head = substream[0]
+                if (head[0] is START and head[1][0] == qname and
+                    any(isinstance(d, ControlAttribute) for d in directives)):
+                    # the controls apply to the binding of this very tag
+                    directives = [Binding(u'', bind=bind)] + list(directives)
+                    substream = [head] + list(
+                        _bind_unbound_tags(substream[1:], qname, bind))
+                else:
+                    substream = list(
+                        _bind_unbound_tags(substream, qname, bind))
             yield kind, (directives, substream), pos
         elif kind is START:
             if data[0] != qname or qname in data[1]:
-- 
2.43.0


From 07980abd00566ea036a45ef696147d35c050c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:01 +0000
Subject: [PATCH 49/61] fix: bound tags do not escape markup in their contents

---
 flatland/out/genshi.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 4db916a..8e447ee 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -14,7 +14,7 @@ from genshi.template.directives import Directive
 from genshi.template.interpolation import interpolate
 
 
-from flatland.out.generic import _unpack, transform, Context
+from flatland.out.generic import _unpack, transform, Context, Markup
 import six
 
 
@@ -276,13 +276,14 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
     if len(stream) == 2:
         contents = None
     else:
-        contents = _simplify_stream(stream[1:-1], ctxt, vars)
+        body = stream[1:-1]
+        contents = _simplify_stream(body, ctxt, vars)
 
     existing_attributes = {}
     for qname, value in attrs:
         if qname.namespace is None:
             if not isinstance(value, six.text_type):
-                value = _simplify_stream(value, ctxt, vars)
+                value = _simplify_stream(list(value), ctxt, vars)
                 attrs |= ((qname, value),)
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
@@ -297,6 +298,9 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
 
     if new_contents is None:
         new_contents = ()
+    elif new_contents is contents:
+        # unchanged, markup in the contents included
+        new_contents = body
     elif isinstance(new_contents, six.text_type):
         new_contents = [(TEXT, new_contents, (None, -1, -1))]
 
@@ -383,6 +387,7 @@ def _simplify_stream(stream, ctxt, vars):
             value = _eval_expr(data, ctxt, vars)
             if hasattr(value, '__html__'):
                 value = _unpack(value)
+                stream[idx] = (TEXT, Markup(value), pos)
             if hasattr(value, '__next__') or hasattr(value, 'next'):
                 while hasattr(value, '__next__') or hasattr(value, 'next'):
                     value = list(value)
@@ -391,8 +396,14 @@ def _simplify_stream(stream, ctxt, vars):
                     stream[idx:idx + 1] = value
                 else:
                     stream[idx] = (TEXT, value, pos)
-            elif not isinstance(value, six.text_type):
+            elif value is None or hasattr(value, '__iter__'):
+                # left to Genshi in the contents
                 value = six.text_type(value)
+            else:
+                if not isinstance(value, six.text_type):
+                    value = six.text_type(value)
+                if stream[idx][0] is EXPR:
+                    stream[idx] = (TEXT, value, pos)
             parts.append(value)
         else:
             return stream
-- 
2.43.0


From 196ca0ba97e01d02428825e5741339fd5eb40e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:23 +0000
Subject: [PATCH 50/61] fix: references follow when their target is replaced

---
 flatland/schema/scalars.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 94a57f1..8093940 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -10,7 +10,6 @@ from flatland.util import (
     as_mapping,
     autodocument_from_superclasses,
     class_cloner,
-    lazy_property,
     )
 from .base import Element
 import six
@@ -593,7 +592,7 @@ class Ref(Scalar):
 
     #######################################################################
 
-    @lazy_property
+    @property
     def target(self):
         return self.root.el(self.target_path)
 
-- 
2.43.0


From ab500e7e9323d2c8ba573c2b86bd97e8bf9a99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:23 +0000
Subject: [PATCH 51/61] fix: flatland.util publishes only names it has

---
 flatland/util/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/flatland/util/__init__.py b/flatland/util/__init__.py
index 68fdf44..ecdb6fe 100644
--- a/flatland/util/__init__.py
+++ b/flatland/util/__init__.py
@@ -14,9 +14,7 @@ deferred_module.shadow(
             'assignable_property',
             'autodocument_from_superclasses',
             'class_cloner',
-            'decorator',
             'decode_repr',
-            'format_argspec_plus',
             'keyslice_pairs',
             'lazy_property',
             'luhn10',
-- 
2.43.0


From bdef96441877203d3cf5b9199ee964e0fd37c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:23 +0000
Subject: [PATCH 52/61] fix: __all__ of the base module is a list

---
 flatland/schema/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index a68964e..e32fadd 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -15,7 +15,7 @@ from flatland.util import (
 import six
 
 
-__all__ = 'Element'
+__all__ = ['Element']
 
 NoneType = type(None)
 Root = symbol('Root')
-- 
2.43.0


From e9d2bc368307ba152fb99f06ae0e2ba308956d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:59 +0000
Subject: [PATCH 53/61] fix: JoinedString prunes empty values, not every falsy
 one such as 0

---
 flatland/schema/compound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 80f2c50..38128ae 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -326,7 +326,7 @@ class JoinedString(Array, String):
         prune = self.prune_empty
         success = []
         for value in values:
-            if prune and not value:
+            if prune and (value is None or value == u''):
                 continue
             child = self.member_schema()
             success.append(child.set(value))
-- 
2.43.0


From bf2d1a25dad10f6262120778e982e79bac225442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:43 +0000
Subject: [PATCH 54/61] fix: NANPphone keeps leading zeros of extensions and of
 non-ASCII digits

---
 flatland/validation/string.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 43467ea..a9ee574 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -13,7 +13,7 @@ class NANPphone(Validator):
     re_cleaner = re_ucompile(u'\\D')
     re_lowbit = re.compile('^[0-9]+$')
     fmt_line = u'(%03i) %03i-%04i'
-    fmt_ext = fmt_line + ' x%i'
+    fmt_ext = fmt_line + ' x%s'
 
     def __init__(self, extensions=False, **kw):
         Validator.__init__(self, **kw)
@@ -28,7 +28,7 @@ class NANPphone(Validator):
 
         if not self.re_lowbit.match(value):
             # Translate to single-byte numbers.
-            value = six.text_type(str(int(value)))
+            value = u''.join(six.text_type(int(digit)) for digit in value)
 
         if len(value) < 10:
             return self.note_error(element, state, 'invalid')
@@ -42,7 +42,7 @@ class NANPphone(Validator):
             value = self.fmt_ext % (int(value[0:3]),
                                     int(value[3:6]),
                                     int(value[6:10]),
-                                    int(value[10:]))
+                                    value[10:])
 
         element.set(value)
         return True
-- 
2.43.0


From 86f8828480c89bdf501bb78730aa118f3de9b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:16 +0000
Subject: [PATCH 55/61] fix: an unnamed scalar ignored the blank key it
 flattens to

---
 flatland/schema/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 8093940..4623ed2 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -121,7 +121,7 @@ class Scalar(Element):
 
     def _set_flat(self, pairs, sep):
         for key, value in pairs:
-            if key == self.name:
+            if key == self.name or not (key or self.name):
                 self.set(value)
                 break
 
-- 
2.43.0


From d435a217d280d4f855e430a7e56fb5814a7e0fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:16 +0000
Subject: [PATCH 56/61] fix: set_flat of a List of unnamed mappings or lists
 raised for a key ending in an index

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index d25d40b..9c4daf4 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -581,7 +581,7 @@ class List(Sequence):
                 # aren't valid data for us.
                 pass
             else:
-                child_key = key[len(m.group(0)):] or None
+                child_key = key[len(m.group(0)):]
                 indexes[index].append((child_key, value))
 
         if not indexes:
-- 
2.43.0


From d7e3a98bd3fff4f8f4bd5086c5621187f83d58e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:57 +0000
Subject: [PATCH 57/61] fix: an expression in the contents of a bound tag
 giving one directive event raised TypeError

---
 flatland/out/genshi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 8e447ee..7996684 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -394,8 +394,8 @@ def _simplify_stream(stream, ctxt, vars):
                     value = _simplify_stream(value, ctxt, vars)
                 if not isinstance(value, six.text_type):
                     stream[idx:idx + 1] = value
-                else:
-                    stream[idx] = (TEXT, value, pos)
+                    return stream
+                stream[idx] = (TEXT, value, pos)
             elif value is None or hasattr(value, '__iter__'):
                 # left to Genshi in the contents
                 value = six.text_type(value)
-- 
2.43.0


From 425f6f34066653b852f8af047be943f0089d1d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:42 +0000
Subject: [PATCH 58/61] fix: an iterator of plain values in the contents of a
 bound tag raised ValueError or TypeError

---
 flatland/out/genshi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 7996684..d503c5c 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -1,7 +1,7 @@
 from __future__ import absolute_import
 from collections import deque
 
-from genshi.core import Namespace, QName, END, START, TEXT
+from genshi.core import Namespace, QName, END, START, TEXT, _ensure
 from genshi.template.base import (
     DirectiveFactory,
     EXPR,
@@ -390,7 +390,8 @@ def _simplify_stream(stream, ctxt, vars):
                 stream[idx] = (TEXT, Markup(value), pos)
             if hasattr(value, '__next__') or hasattr(value, 'next'):
                 while hasattr(value, '__next__') or hasattr(value, 'next'):
-                    value = list(value)
+                    # plain values become texts, as in Genshi
+                    value = list(_ensure(value))
                     value = _simplify_stream(value, ctxt, vars)
                 if not isinstance(value, six.text_type):
                     stream[idx:idx + 1] = value
-- 
2.43.0


From 3298fce193bb587dec9d6c0aac55321b2af6e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:12 +0000
Subject: [PATCH 59/61] fix: setting a card number to filler without digits
 raised ValueError

---
 flatland/ext/creditcard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 448a069..5592e1f 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -111,7 +111,8 @@ def _from_string(number):
     if not _re_filler.match(number):
         return None
 
-    return int(_re_strip.sub(u'', six.text_type(number)))
+    digits = _re_strip.sub(u'', six.text_type(number))
+    return int(digits) if digits else None
 
 def _pretty_print(number):
     if number is None:
-- 
2.43.0


From 61c80eab77d9a7a446934622247c1467b0fc7d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:06 +0000
Subject: [PATCH 60/61] fix: List.sort gave its key function the internal slot
 instead of the member

---
 flatland/schema/containers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 9c4daf4..b404721 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -537,7 +537,11 @@ class List(Sequence):
 
     def sort(self, cmp=None, key=None, reverse=False):
         assert cmp is None  # no cmp for list.sort in py3
-        list.sort(self, key=key, reverse=reverse)
+        if key is None:
+            slot_key = None
+        else:
+            slot_key = lambda slot: key(slot.element)
+        list.sort(self, key=slot_key, reverse=reverse)
         self._renumber()
 
     def reverse(self):
-- 
2.43.0


From 394284ca762506ef5a1295f451bd78a38d72318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:45 +0000
Subject: [PATCH 61/61] fix: escapes before the malformed brackets of a path
 name kept their backslash

---
 flatland/schema/paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 22e773c..33703f9 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -134,8 +134,8 @@ def tokenize(path):
         elif (token.startswith('[') and last_type is NAME and
               last != '/'):
             previous = tokens.pop()
-            last = last + _unescape_re.sub(r'\1', token)
-            tokens.append((previous[0], last))
+            last = last + token
+            tokens.append((previous[0], _unescape_re.sub(r'\1', last)))
             continue
 
         # foo/bar/baz[bogus] -> 'foo', 'bar', 'baz[bogus]'
-- 
2.43.0

