From cecd626b6d416e7c3888c1ea66fb16bc272a47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 01/11] fix: claim type and type set names atomically

Two threads registering the same name could both pass the check and both
succeed, the second replacing the first.
---
 datashape/coretypes.py | 11 +++++++----
 datashape/typesets.py  | 13 +++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index ea28b82..5a1ab21 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -10,6 +10,7 @@ shape and data type.
 import sys
 import ctypes
 import operator
+import threading
 
 from math import ceil
 
@@ -35,6 +36,7 @@ MEASURE = 2
 
 class Type(type):
     _registry = {}
+    _registry_lock = threading.Lock()
 
     def __new__(meta, name, bases, dct):
         cls = super(Type, meta).__new__(meta, name, bases, dct)
@@ -46,11 +48,12 @@ class Type(type):
     @classmethod
     def register(cls, name, type):
         # Don't clobber existing types.
-        if name in cls._registry:
-            raise TypeError('There is another type registered with name %s'
-                            % name)
+        with cls._registry_lock:
+            if name in cls._registry:
+                raise TypeError('There is another type registered with name %s'
+                                % name)
 
-        cls._registry[name] = type
+            cls._registry[name] = type
 
     @classmethod
     def lookup_type(cls, name):
diff --git a/datashape/typesets.py b/datashape/typesets.py
index bfcec97..5d14035 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -2,6 +2,8 @@
 Traits constituting sets of types.
 """
 
+import threading
+
 from itertools import chain
 
 from .coretypes import (Unit, int8, int16, int32, int64, uint8, uint16, uint32,
@@ -83,15 +85,18 @@ def matches_typeset(types, signature):
 
 
 class TypesetRegistry(object):
+    _lock = threading.Lock()
+
     def __init__(self):
         self.registry = {}
         self.lookup = self.registry.get
 
     def register_typeset(self, name, typeset):
-        if name in self.registry:
-            raise TypeError("TypeSet %s already defined with types %s" %
-                            (name, self.registry[name].types))
-        self.registry[name] = typeset
+        with self._lock:
+            if name in self.registry:
+                raise TypeError("TypeSet %s already defined with types %s" %
+                                (name, self.registry[name].types))
+            self.registry[name] = typeset
         return typeset
 
     def __getitem__(self, key):
-- 
2.43.0


From 5f8130c6d524d62da597a10090fe7bc3d1f7429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 02/11] fix: naming a datashape does not replace a registered
 type

DataShape(..., name=n) stored itself in the type registry without looking,
so DataShape(..., name='int32') made from_numpy answer wrongly from then on.
---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 5a1ab21..6ffae67 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -566,7 +566,7 @@ class DataShape(Mono):
         self.name = kwds.get('name')
 
         if self.name:
-            type(type(self))._registry[self.name] = self
+            Type.register(self.name, self)
 
     def __len__(self):
         return len(self.parameters)
-- 
2.43.0


From a49d1b95b857cf057eba7f35968f343935796a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 03/11] fix: discovering a set does not depend on its iteration
 order

The element types of a mixed set were listed in iteration order, which
differs from process to process.
---
 datashape/discovery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 602cffa..325fbed 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -226,6 +226,9 @@ def discover(seq):
             pass
 
     types = list(map(discover, seq))
+    if isinstance(seq, (set, frozenset)):
+        # sets iterate in an arbitrary order
+        types.sort(key=str)
     return do_one([unite_identical, unite_merge_dimensions, Tuple])(types)
 
 
-- 
2.43.0


From 03cb951c8569d100c604fec87da9ab226ba79b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 04/11] fix: print an unnamed type set in declaration order

repr() listed the types in hash order, which differs from process to process.
---
 datashape/typesets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index 5d14035..f53664b 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -50,8 +50,9 @@ class TypeSet(Unit):
     def __repr__(self):
         if self.name:
             return '{%s}' % (self.name,)
-        return "%s(%s, name=%s)" % (self.__class__.__name__, self._set,
-                                    self.name)
+        types = sorted(self._set, key=self._order.index)
+        return "%s({%s}, name=%s)" % (self.__class__.__name__,
+                                      ', '.join(map(repr, types)), self.name)
 
     def __or__(self, other):
         return TypeSet(*chain(self, other))
-- 
2.43.0


From 534dbc715ef950f6bd6838337f88b63975ca6483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 05/11] fix: unit types survive pickle protocols 0 and 1

Their empty state is not handed to __setstate__ by these protocols, which
left null without parameters: unprintable in some forms and unhashable.
---
 datashape/coretypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 6ffae67..7a7ef0b 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -71,6 +71,8 @@ class Mono(with_metaclass(Type, object)):
     """
 
     composite = False
+    # pickle protocols 0 and 1 do not pass an empty state to __setstate__
+    _parameters = ()
 
     def __init__(self, *params):
         self._parameters = params
-- 
2.43.0


From fcaaea80db508070b0c26900d3971dbfd9dcaf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 06/11] fix: reading dates in strings does not depend on
 today's date

---
 datashape/discovery.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 325fbed..717d81f 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -7,7 +7,7 @@ import sys
 from textwrap import dedent
 from warnings import warn
 
-from dateutil.parser import parse as dateparse
+from dateutil.parser import parser, parserinfo
 import numpy as np
 
 from .dispatch import dispatch
@@ -168,6 +168,23 @@ def deltaparse(x):
 string_coercions = int, float, bools.__getitem__, deltaparse, timeparse
 
 
+class FixedParserInfo(parserinfo):
+    """Parser info whose two digit years do not depend on the current year."""
+    def convertyear(self, year, century_specified=False):
+        if year < 100 and not century_specified:
+            year += 2000 if year < 69 else 1900  # as POSIX strptime
+        return year
+
+
+dateparser = parser(FixedParserInfo())
+
+
+def dateparse(s):
+    # Parts missing from the string come from a fixed day of a leap year, not
+    # from the current day: "Feb 29" is a date in whichever year it is read.
+    return dateparser.parse(s, default=datetime(2000, 1, 1))
+
+
 def is_zero_time(t):
     return not (t.hour or t.minute or t.second or t.microsecond)
 
-- 
2.43.0


From c0e00ea1554ab190d3f5a4f39ef3e6a40af5515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 07/11] fix: importing survives a misbehaving git

---
 datashape/_version.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/datashape/_version.py b/datashape/_version.py
index 5ecc8ff..a0a0e39 100644
--- a/datashape/_version.py
+++ b/datashape/_version.py
@@ -83,13 +83,23 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False):
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None
-    stdout = p.communicate()[0].strip()
-    if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+    try:
+        stdout = p.communicate()[0].strip()
+    except EnvironmentError:
+        if verbose:
+            print("unable to read from %s" % dispcmd)
+        return None
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
         return None
+    if sys.version_info[0] >= 3:
+        try:
+            stdout = stdout.decode()
+        except UnicodeDecodeError:
+            if verbose:
+                print("unable to decode the output of %s" % dispcmd)
+            return None
     return stdout
 
 
@@ -243,7 +253,10 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = full_tag[len(tag_prefix):]
 
         # distance: number of commits since tag
-        pieces["distance"] = int(mo.group(2))
+        try:
+            pieces["distance"] = int(mo.group(2))
+        except ValueError:  # too many digits
+            raise NotThisMethod("'git describe' misbehaves")
 
         # commit: short hex revision ID
         pieces["short"] = mo.group(3)
@@ -253,7 +266,10 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                 cwd=root)
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except (TypeError, ValueError):
+            raise NotThisMethod("'git rev-list' failed")
 
     return pieces
 
-- 
2.43.0


From dc15e84a5cbe4a9382ca655cfcc18ff61fda3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 08/11] fix: discovery does not swallow failures of what it
 reads

---
 datashape/discovery.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 717d81f..251f50e 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -196,9 +196,10 @@ def discover(s):
 
     for f in string_coercions:
         try:
-            return discover(f(s))
+            value = f(s)
         except (ValueError, KeyError):
-            pass
+            continue
+        return discover(value)
 
     # don't let dateutil parse things like sunday, monday etc into dates
     if s.isalpha() or s.isspace():
@@ -218,27 +219,27 @@ def discover(s):
 def discover(seq):
     if not seq:
         return var * string
+    n = len(seq)
     unite = do_one([unite_identical, unite_base, unite_merge_dimensions])
     # [(a, b), (a, c)]
     if (all(isinstance(item, (tuple, list)) for item in seq) and
             len(set(map(len, seq))) == 1):
-        columns = list(zip(*seq))
+        columns = [[discover(data) for data in column]
+                   for column in zip(*seq)]
         try:
-            types = [unite([discover(data) for data in column]).subshape[0]
-                     for column in columns]
+            types = [unite(column).subshape[0] for column in columns]
             unite = do_one([unite_identical, unite_merge_dimensions, Tuple])
-            return len(seq) * unite(types)
+            return n * unite(types)
         except AttributeError:  # no subshape available
             pass
 
     # [{k: v, k: v}, {k: v, k: v}]
     if all(isinstance(item, dict) for item in seq):
         keys = sorted(set.union(*(set(d) for d in seq)))
-        columns = [[item.get(key) for item in seq] for key in keys]
+        columns = [[discover(item.get(key)) for item in seq] for key in keys]
         try:
-            types = [unite([discover(data) for data in column]).subshape[0]
-                     for column in columns]
-            return len(seq) * Record(list(zip(keys, types)))
+            types = [unite(column).subshape[0] for column in columns]
+            return n * Record(list(zip(keys, types)))
         except AttributeError:
             pass
 
-- 
2.43.0


From f4948d39051d211556631bc37e1e917330317c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 09/11] fix: an interrupted import can be retried

---
 datashape/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datashape/__init__.py b/datashape/__init__.py
index e78a0ef..981f68b 100644
--- a/datashape/__init__.py
+++ b/datashape/__init__.py
@@ -1,5 +1,13 @@
 from __future__ import absolute_import
 
+import sys
+if '__version__' not in globals():  # not reloading
+    # Modules left over from an interrupted import refer to a package that no
+    # longer exists.
+    list(map(sys.modules.pop, [name for name in sys.modules
+                               if name.startswith(__name__ + '.')]))
+del sys
+
 from . import lexer, parser
 from .coretypes import *
 from .predicates import *
-- 
2.43.0


From ff6f715b250b0a2687a84acafc0fd0376385fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 10/11] fix: a StopIteration from a rule does not cut a
 sequence short

---
 datashape/discovery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 251f50e..5e67910 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -243,7 +243,8 @@ def discover(seq):
         except AttributeError:
             pass
 
-    types = list(map(discover, seq))
+    # not list(map()), which a StopIteration from a rule would cut short
+    types = [discover(item) for item in seq]
     if isinstance(seq, (set, frozenset)):
         # sets iterate in an arbitrary order
         types.sort(key=str)
-- 
2.43.0


From 13546a4e243a9b7e8bbd16deff27bbaed2d86dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 11/11] fix: registering a type survives fork and signal
 handlers

The registries are guarded by a lock that is not reentrant and that a forked
process inherits locked when another thread is registering at that moment.
---
 datashape/coretypes.py | 17 +++++++++++++----
 datashape/typesets.py  | 14 +++++---------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 7a7ef0b..c27c90c 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -7,6 +7,7 @@ This defines the DataShape type system, with unified
 shape and data type.
 """
 
+import os
 import sys
 import ctypes
 import operator
@@ -36,7 +37,9 @@ MEASURE = 2
 
 class Type(type):
     _registry = {}
-    _registry_lock = threading.Lock()
+    # Reentrant: a signal handler or finalizer may interrupt a registration
+    # and register something itself.
+    _registry_lock = threading.RLock()
 
     def __new__(meta, name, bases, dct):
         cls = super(Type, meta).__new__(meta, name, bases, dct)
@@ -49,17 +52,23 @@ class Type(type):
     def register(cls, name, type):
         # Don't clobber existing types.
         with cls._registry_lock:
-            if name in cls._registry:
+            if (name in cls._registry or
+                    cls._registry.setdefault(name, type) is not type):
                 raise TypeError('There is another type registered with name %s'
                                 % name)
 
-            cls._registry[name] = type
-
     @classmethod
     def lookup_type(cls, name):
         return cls._registry[name]
 
 
+if hasattr(os, 'register_at_fork'):
+    # A forked process must not inherit the lock from a thread it does not have.
+    os.register_at_fork(before=Type._registry_lock.acquire,
+                        after_in_parent=Type._registry_lock.release,
+                        after_in_child=Type._registry_lock.release)
+
+
 class Mono(with_metaclass(Type, object)):
 
     """
diff --git a/datashape/typesets.py b/datashape/typesets.py
index f53664b..472cd2d 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -2,12 +2,10 @@
 Traits constituting sets of types.
 """
 
-import threading
-
 from itertools import chain
 
-from .coretypes import (Unit, int8, int16, int32, int64, uint8, uint16, uint32,
-                        uint64, float16, float32, float64, complex64,
+from .coretypes import (Type, Unit, int8, int16, int32, int64, uint8, uint16,
+                        uint32, uint64, float16, float32, float64, complex64,
                         complex128, bool_, Decimal, TimeDelta, Option)
 
 
@@ -86,18 +84,16 @@ def matches_typeset(types, signature):
 
 
 class TypesetRegistry(object):
-    _lock = threading.Lock()
-
     def __init__(self):
         self.registry = {}
         self.lookup = self.registry.get
 
     def register_typeset(self, name, typeset):
-        with self._lock:
-            if name in self.registry:
+        with Type._registry_lock:
+            if (name in self.registry or
+                    self.registry.setdefault(name, typeset) is not typeset):
                 raise TypeError("TypeSet %s already defined with types %s" %
                                 (name, self.registry[name].types))
-            self.registry[name] = typeset
         return typeset
 
     def __getitem__(self, key):
-- 
2.43.0

