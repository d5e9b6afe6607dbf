From 1fc93455b5eb5366d79b29921f5e88682a12d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 01/48] fix: an identifier followed by a newline is not a valid
 name

---
 openquake/commonlib/valid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 2a6a7e2..03140c7 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -67,7 +67,7 @@ class Regex(object):
                              (value, self.rx.pattern))
         return value
 
-name = Regex(r'^[a-zA-Z_]\w*$')
+name = Regex(r'^[a-zA-Z_]\w*\Z')
 
 
 class FloatRange(object):
-- 
2.43.0


From e7f0673ab119f973d5838ba5cdbc13dc3baaee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 02/48] fix: reject NaN in the numeric range validators

---
 openquake/commonlib/valid.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 03140c7..c42a128 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -77,6 +77,8 @@ class FloatRange(object):
 
     def __call__(self, value):
         f = float(value)
+        if f != f:
+            raise ValueError('%r is not a number' % value)
         if f > self.maxrange:
             raise ValueError('%r is bigger than the max, %r' %
                              (f, self.maxrange))
@@ -104,7 +106,9 @@ def namelist(text):
 def longitude(text):
     """String -> longitude float"""
     lon = float(text)
-    if lon > 180.:
+    if lon != lon:
+        raise ValueError('longitude %r is not a number' % text)
+    elif lon > 180.:
         raise ValueError('longitude %s > 180' % lon)
     elif lon < -180.:
         raise ValueError('longitude %s < -180' % lon)
@@ -114,7 +118,9 @@ def longitude(text):
 def latitude(text):
     """String -> latitude float"""
     lat = float(text)
-    if lat > 90.:
+    if lat != lat:
+        raise ValueError('latitude %r is not a number' % text)
+    elif lat > 90.:
         raise ValueError('latitude %s > 90' % lat)
     elif lat < -90.:
         raise ValueError('latitude %s < -90' % lat)
@@ -132,6 +138,8 @@ def positiveint(text):
 def positivefloat(text):
     """String -> positive float"""
     f = float(text)
+    if f != f:
+        raise ValueError('%r is not a number' % text)
     if f < 0:
         raise ValueError('float %d < 0' % f)
     return f
-- 
2.43.0


From 163fe818d641e94a69e0e52cce97de2908c17912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 03/48] fix: positivefloat('-inf') raises ValueError, not
 OverflowError

---
 openquake/commonlib/valid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index c42a128..27cef93 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -141,7 +141,7 @@ def positivefloat(text):
     if f != f:
         raise ValueError('%r is not a number' % text)
     if f < 0:
-        raise ValueError('float %d < 0' % f)
+        raise ValueError('float %s < 0' % f)
     return f
 
 
-- 
2.43.0


From 9b520bb912568479fc985c69bc8d91f816dfa34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 04/48] fix: IMTstr rejects text after a valid intensity
 measure type

---
 openquake/commonlib/valid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 27cef93..52180bc 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -170,7 +170,7 @@ IMT = collections.namedtuple('IMT', 'imt saPeriod saDamping')
 
 def IMTstr(text):
     """String -> namedtuple with fields imt, saPeriod, saDamping"""
-    mo = re.match(r'PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\)', text)
+    mo = re.match(r'(?:PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\))\Z', text)
     if mo is None:
         raise ValueError('%r is not a valid IMT' % text)
     period = mo.group(1)
-- 
2.43.0


From 22103c4ba39707dd6d489ab103f96124a673d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 05/48] fix: records and tables of different lengths are
 different, not an AssertionError

---
 openquake/commonlib/record.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 664c75c..a102a3c 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -351,8 +351,8 @@ class Record(collections.Sequence):
         A record is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
-        return all(x == y for x, y in zip(self, other))
+        return len(self) == len(other) and all(
+            x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
         """
@@ -490,8 +490,8 @@ class Table(collections.MutableSequence):
         A table is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
-        return all(x == y for x, y in zip(self, other))
+        return len(self) == len(other) and all(
+            x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
         """
-- 
2.43.0


From c22fa22b20df6eb6cc54376e4b030ca6f329b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 06/48] fix: a refused insertion leaves no trace in the unique
 keys of a table

---
 openquake/commonlib/record.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index a102a3c..5ece711 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -459,19 +459,18 @@ class Table(collections.MutableSequence):
         (in terms of unique constraints, including the primary
         key) raises a KeyError.
         """
-        for name, unique in self._unique_data.iteritems():
-            key = getattr(rec, name)
-            try:
-                rec = unique.dict[key]
-            except KeyError:  # not inserted yet
-                unique.dict[key] = rec
-            else:
+        keys = {}
+        for uname, unique in self._unique_data.iteritems():
+            key = keys[uname] = getattr(rec, uname)
+            if key in unique.dict:
                 msg = []
                 for k, name in zip(key, unique.names):
                     msg.append('%s=%s' % (name, k))
                 raise KeyError('%s:%d:Duplicated record:%s' %
                                (self.recordtype.__name__, position,
                                 ','.join(msg)))
+        for uname, unique in self._unique_data.iteritems():
+            unique.dict[keys[uname]] = rec
         self._records.insert(position, rec)
 
     def getrecord(self, *pkey):
-- 
2.43.0


From 49caff90daba8c32e29dde3c374c5b7b65eb6812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 07/48] fix: replacing a record of a table checks the unique
 constraints

---
 openquake/commonlib/record.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 5ece711..ba4db7b 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -435,7 +435,13 @@ class Table(collections.MutableSequence):
     def __setitem__(self, i, new_record):
         """Set the i-th record"""
         # TODO: the fk dictionaries must be updated!
-        # TODO: there is no unique check here!
+        old_record = self._records[i]
+        for name, unique in self._unique_data.iteritems():
+            key = getattr(new_record, name)
+            if key in unique.dict and unique.dict[key] is not old_record:
+                raise KeyError('%s:%d:Duplicated record:%s' % (
+                    self.recordtype.__name__, i, ','.join(
+                        '%s=%s' % pair for pair in zip(unique.names, key))))
         for name, unique in self._unique_data.iteritems():
             old_key = getattr(self._records[i], name)
             new_key = getattr(new_record, name)
-- 
2.43.0


From 101eb79824fc923f74e6b948b957a425073e6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 08/48] fix: an empty slice of a TableSet has no tables

---
 openquake/commonlib/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index ba4db7b..c035959 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -527,7 +527,7 @@ class TableSet(object):
     def __init__(self, convertertype, tables=None):
         self.convertertype = convertertype
         self.name = convertertype.__name__
-        self.tables = tables or [
+        self.tables = tables if tables is not None else [
             Table(rt, [], ordinal)
             for ordinal, rt in enumerate(convertertype.recordtypes())]
         self.fkdict = {}
-- 
2.43.0


From f6e6a011263c9125410260a17b767017b677d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 09/48] fix: the error for repeated names in a Unique
 constraint can be printed

---
 openquake/commonlib/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index c035959..81f90cb 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -87,7 +87,7 @@ class Unique(object):
     loc.unique_fields returns the tuple (lon, lat), as UTF8-encoded strings.
     """
     def __init__(self, *names):
-        assert len(set(names)) == len(names), 'Duplicates in %s!' % names
+        assert len(set(names)) == len(names), 'Duplicates in %s!' % (names,)
         self.names = names
         self.name = None  # set by MetaRecord
         self.recordtype = None  # set by MetaRecord
-- 
2.43.0


From 81c338bd3f2f0dea02359ed44a65799e802e5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 10/48] fix: weighted sequences of different lengths are
 different, != is the opposite of ==

---
 openquake/commonlib/general.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index e38cebf..6ae457b 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -107,7 +107,14 @@ class WeightedSequence(collections.MutableSequence):
         """
         Compare for equality the items contained in self
         """
-        return all(x == y for x, y in zip(self, other))
+        return len(self) == len(other) and all(
+            x == y for x, y in zip(self, other))
+
+    def __ne__(self, other):
+        """
+        The opposite of equality
+        """
+        return not self == other
 
     def __repr__(self):
         """
-- 
2.43.0


From a443caf1b01855da5fee73f838bf73869ccf402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 11/48] fix: block_splitter ignores the kind of the items of
 zero weight

---
 openquake/commonlib/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 6ae457b..2543424 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -188,7 +188,7 @@ def block_splitter(items, max_weight, weight=lambda item: 1,
             raise ValueError('The item %r got a negative weight %s!' %
                              (item, w))
         elif w == 0:  # ignore items with 0 weight
-            pass
+            continue
         elif ws.weight + w > max_weight or k != prev_kind:
             new_ws = WeightedSequence([(item, w)])
             if ws:
-- 
2.43.0


From ca7145bd189204e914f43f7407d09d1e3a131db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 12/48] fix: split_in_blocks of items without weight yields no
 blocks

---
 openquake/commonlib/general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 2543424..82e1750 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -222,7 +222,9 @@ def split_in_blocks(sequence, hint, weight=lambda item: 1,
     assert hint > 0, hint
     items = list(sequence)
     total_weight = float(sum(weight(item) for item in items))
-    return block_splitter(items, math.ceil(total_weight / hint), weight, kind)
+    # there are no blocks if the total weight is zero: any max_weight will do
+    max_weight = math.ceil(total_weight / hint) if total_weight else 1
+    return block_splitter(items, max_weight, weight, kind)
 
 
 def deep_eq(a, b, decimal=7, exclude=None):
-- 
2.43.0


From 014da21ba535a1d90bacd169906ae683a3400c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 13/48] fix: deep_eq finds missing keys and honors exclude at
 any depth

---
 openquake/commonlib/general.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 82e1750..79f6c7d 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -272,7 +272,8 @@ def _deep_eq(a, b, decimal, exclude=None):
 
         for key in a:
             if not key in exclude:
-                _deep_eq(a[key], b[key], decimal)
+                assert key in b, "Key %r is missing in %s" % (key, b)
+                _deep_eq(a[key], b[key], decimal, exclude)
 
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
@@ -282,7 +283,7 @@ def _deep_eq(a, b, decimal, exclude=None):
             dict(a=a, b=b, len_a=len(a), len_b=len(b))
 
         for i, item in enumerate(a):
-            _deep_eq(item, b[i], decimal)
+            _deep_eq(item, b[i], decimal, exclude)
 
     # lists or tuples
     if isinstance(a, (list, tuple)):
@@ -308,7 +309,7 @@ def _deep_eq(a, b, decimal, exclude=None):
             "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
         for slot in a.__slots__:
             if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal)
+                _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
     else:
         # Objects must be primitives
 
-- 
2.43.0


From f522658037bd82308e137068e6078674dd44f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 14/48] fix: deep_eq of values of different kinds returns False

---
 openquake/commonlib/general.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 79f6c7d..b68904e 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -265,6 +265,7 @@ def _deep_eq(a, b, decimal, exclude=None):
 
     def _test_dict(a, b):
         """Compare `dict` types recursively."""
+        assert isinstance(b, collections.Mapping), "%s is not a dict" % (b,)
         assert len(a) == len(b), (
             "Dicts %(a)s and %(b)s do not have the same length."
             " Actual lengths: %(len_a)s and %(len_b)s") % dict(
@@ -277,6 +278,9 @@ def _deep_eq(a, b, decimal, exclude=None):
 
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
+        assert isinstance(b, collections.Iterable) and not isinstance(
+            b, (basestring, dict)), "%s is not a sequence" % (b,)
+        b = list(b)
         assert len(a) == len(b), (
             "Sequences %(a)s and %(b)s do not have the same length."
             " Actual lengths: %(len_a)s and %(len_b)s") % \
@@ -297,10 +301,11 @@ def _deep_eq(a, b, decimal, exclude=None):
             "%s and %s are different classes") % (a.__class__, b.__class__)
         _test_dict(a.__dict__, b.__dict__)
     # iterables (not strings)
-    elif isinstance(a, collections.Iterable) and not isinstance(a, str):
+    elif isinstance(a, collections.Iterable) and not isinstance(
+            a, basestring):
         # If there's a generator or another type of iterable, treat it as a
         # `list`. NOTE: Generators will be exhausted if you do this.
-        _test_seq(list(a), list(b))
+        _test_seq(list(a), b)
     # objects with __slots__
     elif hasattr(a, '__slots__'):
         assert a.__class__ == b.__class__, (
@@ -315,6 +320,8 @@ def _deep_eq(a, b, decimal, exclude=None):
 
         # Are they numbers?
         if isinstance(a, (int, long, float, complex)):
+            assert isinstance(b, (int, long, float, complex)), (
+                "%s != %s" % (a, b))
             numpy.testing.assert_almost_equal(a, b, decimal=decimal)
         else:
             assert a == b, "%s != %s" % (a, b)
-- 
2.43.0


From bc3323d5f884b26a1cca93fcf971adc9395b0f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 15/48] fix: deep_eq finds the keys missing on either side

---
 openquake/commonlib/general.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index b68904e..fe16893 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -271,9 +271,10 @@ def _deep_eq(a, b, decimal, exclude=None):
             " Actual lengths: %(len_a)s and %(len_b)s") % dict(
             a=a, b=b, len_a=len(a), len_b=len(b))
 
-        for key in a:
+        for key in set(a).union(b):
             if not key in exclude:
-                assert key in b, "Key %r is missing in %s" % (key, b)
+                assert key in a and key in b, (
+                    "Key %r is missing in %s" % (key, b if key in a else a))
                 _deep_eq(a[key], b[key], decimal, exclude)
 
     def _test_seq(a, b):
-- 
2.43.0


From 66429b96ce269cfe61aa1cc5585f53a991225d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 16/48] fix: deep_eq can report the difference of non-ASCII
 texts

---
 openquake/commonlib/general.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index fe16893..f33e86d 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -265,7 +265,7 @@ def _deep_eq(a, b, decimal, exclude=None):
 
     def _test_dict(a, b):
         """Compare `dict` types recursively."""
-        assert isinstance(b, collections.Mapping), "%s is not a dict" % (b,)
+        assert isinstance(b, collections.Mapping), "%r is not a dict" % (b,)
         assert len(a) == len(b), (
             "Dicts %(a)s and %(b)s do not have the same length."
             " Actual lengths: %(len_a)s and %(len_b)s") % dict(
@@ -280,7 +280,7 @@ def _deep_eq(a, b, decimal, exclude=None):
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
         assert isinstance(b, collections.Iterable) and not isinstance(
-            b, (basestring, dict)), "%s is not a sequence" % (b,)
+            b, (basestring, dict)), "%r is not a sequence" % (b,)
         b = list(b)
         assert len(a) == len(b), (
             "Sequences %(a)s and %(b)s do not have the same length."
@@ -322,10 +322,10 @@ def _deep_eq(a, b, decimal, exclude=None):
         # Are they numbers?
         if isinstance(a, (int, long, float, complex)):
             assert isinstance(b, (int, long, float, complex)), (
-                "%s != %s" % (a, b))
+                "%r != %r" % (a, b))
             numpy.testing.assert_almost_equal(a, b, decimal=decimal)
         else:
-            assert a == b, "%s != %s" % (a, b)
+            assert a == b, "%r != %r" % (a, b)
 
 
 def writetmp(content=None, dir=None, prefix="tmp", suffix="tmp"):
-- 
2.43.0


From 30124a3983c5c552947ca91351f241df0da78f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:20 +0000
Subject: [PATCH 17/48] fix: the optional conversions of an exposure survive
 the round trip

---
 openquake/commonlib/converter.py | 12 ++++++++++--
 openquake/commonlib/records.py   | 15 +++++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e99d53c..5df5e04 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -299,6 +299,14 @@ class Exposure(Converter):
             except NameError:
                 area_type = ''
                 area_unit = ''
+            try:
+                deductible = conv.deductible['isAbsolute']
+            except NameError:
+                deductible = ''
+            try:
+                insurance_limit = conv.insuranceLimit['isAbsolute']
+            except NameError:
+                insurance_limit = ''
             yield records.Exposure(
                 node['id'],
                 node['category'],
@@ -306,8 +314,8 @@ class Exposure(Converter):
                 node.description.text.strip(),
                 area_type,
                 area_unit,
-                conv.deductible['isAbsolute'],
-                conv.insuranceLimit['isAbsolute'])
+                deductible,
+                insurance_limit)
         else:
             yield records.Exposure(
                 node['id'],
diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 5590e9f..644d684 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -232,13 +232,16 @@ class Exposure(Record):
         node.append(Node('description', text=self['description']))
         if node['category'] == 'buildings':
             conv = Node('conversions')
-            conv.append(Node('area', dict(type=self['area_type'],
-                                          unit=self['area_unit'])))
+            if self['area_type']:
+                conv.append(Node('area', dict(type=self['area_type'],
+                                              unit=self['area_unit'])))
             conv.append(Node('costTypes'))
-            conv.append(Node('deductible', dict(
-                isAbsolute=self['deductible_is_absolute'])))
-            conv.append(Node('insuranceLimit', dict(
-                isAbsolute=self['insurance_limit_is_absolute'])))
+            if self['deductible_is_absolute']:
+                conv.append(Node('deductible', dict(
+                    isAbsolute=self['deductible_is_absolute'])))
+            if self['insurance_limit_is_absolute']:
+                conv.append(Node('insuranceLimit', dict(
+                    isAbsolute=self['insurance_limit_is_absolute'])))
             node.append(conv)
         node.append(Node('assets'))
         return node
-- 
2.43.0


From cd2c6f90abd2ec0ce863edb04ae1c6b620aca3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:20 +0000
Subject: [PATCH 18/48] fix: the occupancies of all the assets are converted

---
 openquake/commonlib/converter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 5df5e04..2f476c6 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -395,10 +395,8 @@ class Exposure(Converter):
                 exp.nodes.insert(1, Node('conversions', {}, nodes=[
                     Node('area', {'type': area_type, 'unit': area_unit})]))
         if t.tableOccupancy:
-            # extract the occupancies corresponding to the first asset
-            _asset_ref, occupancies = groupby(
-                t.tableOccupancy, ['asset_ref']).next()
-            periods = sorted(occ.period for occ in occupancies)
+            # extract the periods of all the assets
+            periods = sorted(set(occ.period for occ in t.tableOccupancy))
         else:
             periods = []
         exp.assets.nodes = self._assetgenerator(
-- 
2.43.0


From d1ab4c0ba27fe038a41b38c26d5f178a4c3ff3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:20 +0000
Subject: [PATCH 19/48] fix: the investigation time of a scenario GmfSet may be
 empty

---
 openquake/commonlib/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 644d684..fa63fa8 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -349,7 +349,7 @@ class GmfSet(Record):
     pkey = Unique('stochasticEventSetId')
 
     stochasticEventSetId = Field(int)
-    investigationTime = Field(float)
+    investigationTime = Field(valid.NoneOr(float))
 
     def to_node(self):
         dic = {}
-- 
2.43.0


From 4bf029f61659a3cb8dd6aaf58ec21ab68cb1de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:20 +0000
Subject: [PATCH 20/48] fix: the Gmf records of a scenario belong to its GmfSet

---
 openquake/commonlib/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 2f476c6..e0c7dca 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -460,7 +460,7 @@ class GmfCollection(Converter):
                 imt = gmf['IMT']
                 if imt == 'SA':
                     imt += '(%s)' % gmf['saPeriod']
-                yield records.Gmf(1, imt, '')
+                yield records.Gmf('0', imt, '')
                 for n in gmf:
                     yield records.GmfData(
                         '0', imt, '', n['lon'], n['lat'], n['gmv'])
-- 
2.43.0


From 22b1e5b8a810b509c4f80470699101a7413a5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 21/48] fix: the area of an exposure which is not of buildings
 is converted

---
 openquake/commonlib/converter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e0c7dca..e9b415a 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -317,11 +317,20 @@ class Exposure(Converter):
                 deductible,
                 insurance_limit)
         else:
+            try:
+                area = node.conversions.area
+                area_type = area['type']
+                area_unit = area['unit']
+            except NameError:
+                area_type = ''
+                area_unit = ''
             yield records.Exposure(
                 node['id'],
                 node['category'],
                 taxonomysource,
-                node.description.text.strip())
+                node.description.text.strip(),
+                area_type,
+                area_unit)
 
         locations = {}  # location -> id
         loc_counter = itertools.count(1)
-- 
2.43.0


From b241d0b1426605ee3695c9db41f5d8192e78e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 22/48] fix: a file missing from a directory or zip archive
 raises NotInArchive

---
 openquake/commonlib/csvmanager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 8d58bd4..84fd66b 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -168,7 +168,10 @@ class ZipArchive(Archive):
             return TempFile(self.zip, name, mode)
         else:
             # open for reading
-            return self.zip.open(name, mode)
+            try:
+                return self.zip.open(name, mode)
+            except KeyError:
+                raise NotInArchive(name)
 
     def extract_filenames(self, prefix=''):
         """
@@ -192,7 +195,10 @@ class DirArchive(Archive):
         self.opened = set()
 
     def _open(self, name, mode):
-        return open(os.path.join(self.name, name), mode)
+        pathname = os.path.join(self.name, name)
+        if mode.startswith('r') and not os.path.exists(pathname):
+            raise NotInArchive(name)
+        return open(pathname, mode)
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From 719f3afc1502752bc73aa5b415aceed66dbc7ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 23/48] fix: reading twice a file of a MemArchive gives the
 same content

---
 openquake/commonlib/csvmanager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 84fd66b..2165a17 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -225,9 +225,11 @@ class MemArchive(Archive):
             self.dic[name] = f = FileObject(name, '')
             return f
         try:
-            return self.dic[name]
+            data = self.dic[name].fileobj.getvalue()
         except KeyError:
             raise NotInArchive(name)
+        # each reader starts from the beginning, as in the other archives
+        return FileObject(name, data)
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From ad4fdd41540dcf5a14cdcb0df5599226c1d13576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 24/48] fix: NRMLconvert accepts a .zip archive in input

---
 openquake/commonlib/csvmanager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 2165a17..2879b11 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -243,6 +243,8 @@ def mkarchive(pathname, mode):
     Return a ZipArchive or a DirArchive depending on the pathname extension
     """
     if pathname.endswith('.zip'):
+        if mode == 'r+':  # not a mode of zipfile.ZipFile
+            mode = 'a'
         return ZipArchive(pathname, mode)
     else:
         return DirArchive(pathname, mode)
-- 
2.43.0


From 34191012b2d5c5b1b9f1d12bdb96e21a58805de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 25/48] fix: the csv files written with a prefix containing __
 can be read back

---
 openquake/commonlib/csvmanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 2879b11..b2e89f9 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -316,7 +316,7 @@ class CSVManager(object):
                 ct[name] = value
         for fname in sorted(self.archive.extract_filenames()):
             try:
-                prefix, recordcsv = fname.split('__')
+                prefix, recordcsv = fname.rsplit('__', 1)
             except ValueError:
                 continue
             if not recordcsv.endswith('.csv'):
-- 
2.43.0


From 681a0aa3ca5857a54eb582205384790ed5819783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 26/48] fix: csv files which are not named after a record type
 are ignored

---
 openquake/commonlib/csvmanager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index b2e89f9..49a02bc 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -322,8 +322,9 @@ class CSVManager(object):
             if not recordcsv.endswith('.csv'):
                 continue
             recordtype = getattr(records, recordcsv[:-4], None)
-            if recordtype is None:
-                continue
+            if recordtype is record.Record or not isinstance(
+                    recordtype, record.MetaRecord):
+                continue  # not the name of a concrete record type
             if not prefix in managers:
                 man = self.__class__(self.archive, prefix)
                 man.convertertype = ct[recordtype.convertername]
-- 
2.43.0


From 7e40353364013d1840349ab7b140410114ce5dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 27/48] fix: all the groups of files in an archive are
 converted

---
 openquake/commonlib/csvmanager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 49a02bc..2463812 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -353,7 +353,10 @@ class CSVManager(object):
         """
         Return a populated TableSet from the underlying CSV files
         """
-        tset = record.TableSet(self._getconverter())
+        convertertype = self.convertertype
+        if convertertype is converter.Converter:  # not specialized
+            convertertype = self._getconverter()
+        tset = record.TableSet(convertertype)
         for rectype in tset.convertertype.recordtypes():
             try:
                 tset.insert_all(self.read(rectype))
-- 
2.43.0


From 016ac45170ad1d173de370b2cd34eb63e9f70c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 28/48] fix: the samples of a logic tree are realizations

---
 openquake/commonlib/logictree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 10b58da..f1a4f60 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -598,7 +598,7 @@ class BaseLogicTree(object):
             rnd = random.Random(self.seed)
             for _ in xrange(self.num_samples):
                 name, sm_lt_path = self.sample_path(rnd)
-                yield name, None, tuple(sm_lt_path)
+                yield LtRealization(name, None, tuple(sm_lt_path))
         else:  # full enumeration
             for weight, smlt_path in self.root_branchset.enumerate_paths():
                 name = smlt_path[0].value
-- 
2.43.0


From 0bfacb1701364dd50dad781d546905a15aac8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 29/48] fix: the levels after a skipped one are not lost

---
 openquake/commonlib/logictree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index f1a4f60..f4269e2 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -464,8 +464,9 @@ class BaseLogicTree(object):
                 self.apply_branchset(branchset_node, branchset)
             for branch in branchset.branches:
                 new_open_ends.add(branch)
-        self.open_ends.clear()
-        self.open_ends.update(new_open_ends)
+        if new_open_ends:  # the level is not entirely skipped
+            self.open_ends.clear()
+            self.open_ends.update(new_open_ends)
 
     def parse_branchset(self, branchset_node, depth, number, validate):
         """
-- 
2.43.0


From 4605b9c4efd2c8823bb63400d4cf242e5761e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 30/48] fix: a gmpe branchset without filter raises a
 ValidationError

---
 openquake/commonlib/logictree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index f4269e2..12a6ac2 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1021,8 +1021,9 @@ class GMPELogicTree(BaseLogicTree):
 
         :param attrs: a dictionary with the attributes of the branchset
         """
-        return (attrs['applyToTectonicRegionType']
-                not in self.tectonic_region_types)
+        trt = attrs.get('applyToTectonicRegionType')
+        # a branchset without the filter is refused by .validate_filters
+        return trt is not None and trt not in self.tectonic_region_types
 
     def make_trt_to_gsim(self, branch_ids):
         """
-- 
2.43.0


From bcda515614119a3063785b4e369848469ababe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 31/48] fix: a source model which cannot be read raises a
 ParsingError

---
 openquake/commonlib/logictree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 12a6ac2..ff2c4c5 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -926,7 +926,10 @@ class SourceModelLogicTree(BaseLogicTree):
                                for tagname in self.SOURCE_TYPES)
         sourcetype_slice = slice(len('{%s}' % self.NRML), - len('Source'))
 
-        fh = self._get_source_model(source_model)
+        try:
+            fh = self._get_source_model(source_model)
+        except IOError as exc:
+            raise ParsingError(source_model, self.basepath, str(exc))
         eventstream = etree.iterparse(fh, tag='{%s}*' % self.NRML,
                                       schema=self.get_xmlschema())
         while True:
-- 
2.43.0


From b7b3015731daa475c33d9afab440398481b6a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 32/48] fix: the branches of a GsimLogicTree are kept together
 by branchset

---
 openquake/commonlib/logictree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index ff2c4c5..abc639e 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1149,9 +1149,7 @@ class GMPELogicTree(BaseLogicTree):
 
 
 BranchTuple = namedtuple('BranchTuple', 'bset, id, uncertainty, weight')
-BranchTuple.__lt__ = lambda self, other: (
-    self.bset['branchSetID'] < other.bset['branchSetID']
-    and self.id < other.id)
+
 
 class InvalidLogicTree(Exception):
     pass
@@ -1182,7 +1180,9 @@ class GsimLogicTree(object):
                 'The given tectonic region types are not distinct: %s' %
                 ','.join(self.filter_keys))
         self.values = collections.defaultdict(list)  # {fkey: uncertainties}
-        self.branches = sorted(self._parse_lt())
+        # the branches of a branchset must stay together
+        self.branches = sorted(
+            self._parse_lt(), key=lambda branch: branch.bset['branchSetID'])
         if filter_keys and not self.branches:
             raise InvalidLogicTree(
                 'Could not find branches with attribute %r in %s' %
-- 
2.43.0


From 797053465371c253bc037056202f3597b491902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 33/48] fix: a SourceCollector can be built from a list of
 sources

---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 5cd4065..551e91a 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -50,11 +50,11 @@ class SourceCollector(object):
     def __init__(self, trt, sources=None, num_ruptures=0,
                  min_mag=None, max_mag=None):
         self.trt = trt
-        self.sources = sources or []
+        self.sources = []
         self.num_ruptures = num_ruptures
         self.min_mag = min_mag
         self.max_mag = max_mag
-        for src in self.sources:
+        for src in sources or []:
             self.update(src)
         self.filtered_sources = (0, 0)  # (filtered, total)
 
-- 
2.43.0


From 30affe946c8b60f20802c954ab99a99402165f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 34/48] fix: splitting a fault ignores the magnitudes with no
 rate

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 551e91a..4818d61 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -664,7 +664,7 @@ def split_fault_source(src):
                 min_mag=mag, bin_width=src.mfd.bin_width,
                 occurrence_rates=[rate])
             i += 1
-        yield new_src
+            yield new_src
 
 
 def split_source(src, area_source_discretization):
-- 
2.43.0


From c4c5bcdcd5cfb0abe119d424cd5935c9fc2a39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 35/48] fix: the limit on the weight of the blocks is not
 truncated to zero

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 4818d61..1330d15 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -133,7 +133,7 @@ class SourceCollector(object):
         assert num_sources, 'No sources for TRT=%s!' % self.trt
         return block_splitter(
             self._filter_and_split_sources(src_filter, discr),
-            max_weight * num_sources / (num_sources + 100),
+            float(max_weight) * num_sources / (num_sources + 100),
             self.update_num_ruptures)
 
     def __repr__(self):
-- 
2.43.0


From 561551b11e62e50c8d14780be100f571ef6b2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 36/48] fix: all the discarded sources are counted

---
 openquake/commonlib/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 1330d15..7ba3655 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -117,6 +117,7 @@ class SourceCollector(object):
                     self.filtered_sources = (len(srcs), tot_sources)
             else:
                 tot_sources += 1
+        self.filtered_sources = (len(srcs), tot_sources)
         self.sources = srcs  # throw away unfiltered sources
 
     def gen_blocks(self, src_filter, max_weight, discr):
-- 
2.43.0


From 64e72a2eb141bf5b464eb46648a4ea9736543fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 37/48] fix: converting a characteristic source does not change
 it

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 7ba3655..1908a15 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -491,7 +491,7 @@ class NrmlHazardlibConverter(object):
             # A collection of planar surfaces
             planar_surfaces = []
             for planar_surface in src.surface:
-                kwargs = planar_surface.__dict__
+                kwargs = dict(planar_surface.__dict__)
                 kwargs.update(dict(mesh_spacing=self.rupture_mesh_spacing))
 
                 planar_surfaces.append(geo.PlanarSurface(**kwargs))
-- 
2.43.0


From 75193a00ba7a2faf0169287e895686bfa020b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:19 +0000
Subject: [PATCH 38/48] fix: the memory of a process is compared with its own

---
 openquake/commonlib/parallel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 5da89ee..84e7620 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -347,8 +347,12 @@ class PerformanceMonitor(object):
     def __exit__(self, etype, exc, tb):
         "Call .stop"
         self.exc = exc
+        procs = list(self._procs)
         self.stop_mem = self.measure_mem()
-        self.mem = [m2 - m1 for m1, m2 in zip(self.start_mem, self.stop_mem)]
+        # measure_mem may have removed some processes
+        start_mem = [m1 for proc, m1 in zip(procs, self.start_mem)
+                     if proc in self._procs]
+        self.mem = [m2 - m1 for m1, m2 in zip(start_mem, self.stop_mem)]
         self.duration = time.time() - self._start_time
         self.on_exit()
 
-- 
2.43.0


From f8ff4d3029c95f3883b0566c4f74aabeadca28b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:00 +0000
Subject: [PATCH 39/48] fix: TaskManager.wait counts the tasks

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 84e7620..99f84ba 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -257,7 +257,7 @@ class TaskManager(object):
 
         :returns: the total number of tasks that were spawned
         """
-        return self.aggregate_results(self, lambda acc, res: acc + 1, 0)
+        return self.aggregate_results(lambda acc, res: acc + 1, 0)
 
 
 def map_reduce(function, function_args, agg, acc, name=None):
-- 
2.43.0


From a57a27ec2685cdf31fc27dae136cd481c5d1f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:40 +0000
Subject: [PATCH 40/48] fix: the spaces around the path of a source model are
 ignored

---
 openquake/commonlib/readini.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/readini.py b/openquake/commonlib/readini.py
index 1d1f574..38d3685 100644
--- a/openquake/commonlib/readini.py
+++ b/openquake/commonlib/readini.py
@@ -21,7 +21,7 @@ def _collect_source_model_paths(smlt):
             for branch in branch_set.xpath(
                     './nrml:logicTreeBranch/nrml:uncertaintyModel',
                     namespaces=nrmllib.PARSE_NS_MAP):
-                src_paths.append(branch.text)
+                src_paths.append(branch.text.strip())
     return sorted(set(src_paths))
 
 
-- 
2.43.0


From e43384ee777fe830116352e2f06fc8e95dd184e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 41/48] fix: each reading of a CSV file starts from its
 beginning

---
 openquake/commonlib/csvmanager.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 2463812..8ed0ad4 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -299,7 +299,6 @@ class CSVManager(object):
         self.archive = archive
         self.prefix = prefix
         self.has_header = has_header
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
 
@@ -420,17 +419,15 @@ class CSVManager(object):
         """
         Read the records from the underlying CSV file. Returns an iterator.
         """
-        reader = self.rt2reader.get(recordtype)
-        if reader is None:
-            fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
-            self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
-            self.rt2reader[recordtype] = reader = csv.reader(f)
-            if self.has_header:
-                header = reader.next()
-                if header != recordtype.fieldnames:
-                    raise InvalidFile(
-                        '%s: line 1: got %s as header, expected %s' %
-                        (fname, header, recordtype.fieldnames))
+        fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
+        self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
+        reader = csv.reader(f)
+        if self.has_header:
+            header = reader.next()
+            if header != recordtype.fieldnames:
+                raise InvalidFile(
+                    '%s: line 1: got %s as header, expected %s' %
+                    (fname, header, recordtype.fieldnames))
         for row in reader:
             yield recordtype(*row)
 
@@ -481,7 +478,6 @@ class CSVManager(object):
 
     def __enter__(self):
         """Initialize a few dictionaries"""
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
         self.archive.opened = set()
-- 
2.43.0


From ab444f347a6a9e64f510065d12a1bb07f58a755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 42/48] fix: refuse nrml models whose levels, values and limit
 states do not match

Converting to tables took as many levels, values and limit states as the
shortest list had, silently dropping the others.
---
 openquake/commonlib/converter.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e9b415a..c269d8f 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -39,6 +39,14 @@ def groupby(records, keyfields):
     return itertools.groupby(records, lambda r: [r[k] for k in keyfields])
 
 
+def check_same(what, expected, got):
+    """
+    Refuse a model with parts that do not match, instead of losing data.
+    """
+    if got != expected:
+        raise ValueError('%s: expected %s, got %s' % (what, expected, got))
+
+
 class Converter(object):
     """
     Base class.
@@ -118,6 +126,10 @@ class Vulnerability(Converter):
                 fun_id = vf['vulnerabilityFunctionID']
                 ratios = vf.lossRatio.text.split()
                 coeffs = vf.coefficientsVariation.text.split()
+                check_same('Loss ratios of %s' % fun_id,
+                           len(imls), len(ratios))
+                check_same('Coefficients of variation of %s' % fun_id,
+                           len(imls), len(coeffs))
                 dv = records.DiscreteVulnerability(
                     set_id,
                     fun_id,
@@ -179,10 +191,13 @@ class FragilityDiscrete(Converter):
                 ffs.attrib.get('noDamageLimit', ''),
                 ffs.IML['IMT'],
                 ffs.IML['imlUnit'])
+            check_same('Limit states', limitStates,
+                       [ffd['ls'] for ffd in ffs.getnodes('ffd')])
             for ls, ffd in zip(limitStates, ffs.getnodes('ffd')):
                 assert ls == ffd['ls'], 'Expected %s, got %s' % (
                     ls, ffd['ls'])
                 poEs = ffd.poEs.text.split()
+                check_same('PoEs of %s' % ls, len(imls), len(poEs))
                 for iml, poe in zip(imls, poEs):
                     yield records.FFDataDiscrete(ls, ffs_ordinal, iml, poe)
 
@@ -243,6 +258,8 @@ class FragilityContinuous(Converter):
                 ffs.IML['imlUnit'],
                 ffs.IML['minIML'],
                 ffs.IML['maxIML'])
+            check_same('Limit states', limitStates,
+                       [ffc['ls'] for ffc in ffs.getnodes('ffc')])
             for ls, ffc in zip(limitStates, ffs.getnodes('ffc')):
                 assert ls == ffc['ls'], 'Expected %s, got %s' % (
                     ls, ffc['ls'])
-- 
2.43.0


From 0ad66c47c41fcb52485b119a9be9f882bda5affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 43/48] fix: refuse tables of functions with different levels
 or limit states

Converting tables to nrml kept the levels of the last function of a set, or
of the last limit state, attributing them to the values of all the others,
and wrote the limit states it found whatever the model declared.
---
 openquake/commonlib/converter.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index c269d8f..d6d7715 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -143,6 +143,7 @@ class Vulnerability(Converter):
         tset = self.tableset
         dvs_node = record.nodedict(tset.tableDiscreteVulnerabilitySet)
         dvf_node = record.nodedict(tset.tableDiscreteVulnerability)
+        levels = {}  # set_id -> imls
         for (set_id, vf_id), group in groupby(
                 tset.tableDiscreteVulnerabilityData,
                 ['vulnerabilitySetID', 'vulnerabilityFunctionID']):
@@ -160,6 +161,12 @@ class Vulnerability(Converter):
             scientific.VulnerabilityFunction(
                 imt, map(float, imls), map(float, ratios), map(float, coeffs))
 
+            # check that the functions of the set have the same levels
+            values = map(float, imls)
+            check_same('Levels of %s' % vf_id,
+                       levels.setdefault(set_id, values), values)
+            check_same('Data of %s' % vf_id, None, dvf.lossRatio.text)
+
             dvf.lossRatio.text = ' '.join(ratios)
             dvf.coefficientsVariation.text = ' '.join(coeffs)
             dvs_node[(set_id,)].append(dvf)
@@ -211,6 +218,7 @@ class FragilityDiscrete(Converter):
         nodamage = float(ffs_node['noDamageLimit']) \
             if 'noDamageLimit' in ffs_node else None
         frag.nodes.extend(ffs_node.values())
+        levels = {}  # ordinal -> imls
         for (ls, ordinal), data in groupby(
                 tset.tableFFDataDiscrete, ['limitState', 'ffs_ordinal']):
             data = list(data)
@@ -226,11 +234,17 @@ class FragilityDiscrete(Converter):
                     [rec.poe for rec in data], nodamage)
 
             imls = ' '.join(rec['iml'] for rec in data)
+            values = [rec.iml for rec in data]
+            check_same('Levels of %s' % ls,
+                       levels.setdefault(ordinal, values), values)
             ffs_node[(ordinal,)].IML.text = imls
             poes = ' '.join(rec['poe'] for rec in data)
             n = Node('ffd', dict(ls=ls))
             n.append(Node('poEs', text=poes))
             ffs_node[(ordinal,)].append(n)
+        for ffs in ffs_node.values():
+            check_same('Limit states', frag.limitStates.text.split(),
+                       [ffd['ls'] for ffd in ffs.getnodes('ffd')])
         return frag
 
 
@@ -288,6 +302,9 @@ class FragilityContinuous(Converter):
 
             n.append(Node('params', param))
             ffs_node[(ordinal,)].append(n)
+        for ffs in ffs_node.values():
+            check_same('Limit states', frag.limitStates.text.split(),
+                       [ffc['ls'] for ffc in ffs.getnodes('ffc')])
         return frag
 
 
-- 
2.43.0


From 879d77943522e8bedd891ae2263f4258caeda70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 44/48] fix: refuse costs and occupancies of unknown assets or
 cost types

They were silently left out of the exposure built from the tables.
---
 openquake/commonlib/converter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index d6d7715..57d5a7c 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -437,6 +437,15 @@ class Exposure(Converter):
                 # insert after the description node
                 exp.nodes.insert(1, Node('conversions', {}, nodes=[
                     Node('area', {'type': area_type, 'unit': area_unit})]))
+        # check that there are no data of unknown assets or cost types
+        refs = set(asset['asset_ref'] for asset in t.tableAsset)
+        for rec in itertools.chain(t.tableCost, t.tableOccupancy):
+            if rec['asset_ref'] not in refs:
+                raise ValueError('Unknown asset: %s' % rec)
+        for rec in t.tableCost:
+            if rec['type'] not in cost_types:
+                raise ValueError('Unknown cost type: %s' % rec)
+
         if t.tableOccupancy:
             # extract the periods of all the assets
             periods = sorted(set(occ.period for occ in t.tableOccupancy))
-- 
2.43.0


From c42ec5abeb3e15befdc7042f9b1c7d8eec8a9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 45/48] fix: refuse tables with several exposures, collections
 or scenario sets

All of them but one were silently left out.
---
 openquake/commonlib/converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 57d5a7c..e1ec598 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -424,6 +424,7 @@ class Exposure(Converter):
         with a variable number of columns depending on the metadata.
         """
         t = self.tableset
+        check_same('Number of exposures', 1, len(t.tableExposure))
         exp = t.tableExposure[0].to_node()
         if exp['category'] == 'buildings':
             cost_types = [c.name for c in t.tableCostType]
@@ -572,7 +573,9 @@ class GmfCollection(Converter):
             gmfcoll = tset.tableGmfCollection[0]
         except IndexError:  # no data for GmfCollection
             gmfset_node = self._to_node()
+            check_same('Number of scenario sets', 1, len(gmfset_node))
             return gmfset_node.values()[0]  # there is a single node
+        check_same('Number of collections', 1, len(tset.tableGmfCollection))
         gmfset_node = self._to_node()
         gmfcoll_node = gmfcoll.to_node()
         for node in gmfset_node.values():
-- 
2.43.0


From bf9cc24ac88bf10a69ca03942cbd24d93e4ead3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 46/48] fix: a repeated taxonomy in a fragility model is
 refused

The functions of the last one silently replaced the others, while a
repeated taxonomy in a vulnerability model is an error.
---
 openquake/commonlib/riskloaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openquake/commonlib/riskloaders.py b/openquake/commonlib/riskloaders.py
index 1f957b3..1045c6d 100644
--- a/openquake/commonlib/riskloaders.py
+++ b/openquake/commonlib/riskloaders.py
@@ -128,6 +128,9 @@ def get_damage_states_and_risk_models(content):
 
     tax_imt = dict()
     for taxonomy, iml, params, no_damage_limit in iterparse:
+        if taxonomy in tax_imt:
+            raise ValueError("Error creating fragility functions: the "
+                             "taxonomy %s is repeated" % taxonomy)
         tax_imt[taxonomy] = iml['IMT']
 
         if fmt == "discrete":
-- 
2.43.0


From c32ff3b7d98159ffef88d045a120c43266ecd30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 47/48] fix: a vulnerability function refused by an assertion
 is a ValueError too

The message did not say to which taxonomy the function belongs.
---
 openquake/commonlib/riskloaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/riskloaders.py b/openquake/commonlib/riskloaders.py
index 1045c6d..1eaf798 100644
--- a/openquake/commonlib/riskloaders.py
+++ b/openquake/commonlib/riskloaders.py
@@ -63,7 +63,7 @@ def _get_vulnerability_functions(vulnerability_file):
         try:
             vfs[taxonomy] = scientific.VulnerabilityFunction(
                 imt, record['IML'], loss_ratios, covs, distribution)
-        except ValueError, err:
+        except (ValueError, AssertionError), err:
             msg = "Invalid vulnerability function with ID '%s': %s" % (
                 taxonomy, err.message)
             raise ValueError(msg)
-- 
2.43.0


From a1eced6ea1da63ddb957bbfa48d801aea0a92bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:38 +0000
Subject: [PATCH 48/48] fix: deep_eq ignores excluded keys also when only one
 side has them

---
 openquake/commonlib/general.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index f33e86d..a40602a 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -266,10 +266,13 @@ def _deep_eq(a, b, decimal, exclude=None):
     def _test_dict(a, b):
         """Compare `dict` types recursively."""
         assert isinstance(b, collections.Mapping), "%r is not a dict" % (b,)
-        assert len(a) == len(b), (
+        # the excluded keys do not count, even if only one dict has them
+        len_a = sum(key not in exclude for key in a)
+        len_b = sum(key not in exclude for key in b)
+        assert len_a == len_b, (
             "Dicts %(a)s and %(b)s do not have the same length."
             " Actual lengths: %(len_a)s and %(len_b)s") % dict(
-            a=a, b=b, len_a=len(a), len_b=len(b))
+            a=a, b=b, len_a=len_a, len_b=len_b)
 
         for key in set(a).union(b):
             if not key in exclude:
-- 
2.43.0

