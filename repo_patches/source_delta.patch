From 354d3a342db872b460f8fb9987cc6c5edfc0fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 01/57] fix: WhatamiRegistry.remove accepts nickname and what
 when both name the same entry

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index b627b2d..fcf0304 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -70,7 +70,7 @@ class WhatamiRegistry(object):
             whatid = self.nick2id(nickname)
         else:
             old_whatid = self.nick2id(nickname)
-            old_nick = self.id2nick(nickname)
+            old_nick = self.id2nick(whatid)
             if old_whatid != whatid or old_nick != nickname:
                 raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
                                  (whatid, old_whatid, nickname, old_nick))
-- 
2.43.0


From 06dfae572043f28d0fc8d88686a486e4df4d6b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/57] fix: registry changes are atomic, also when interrupted
 or made from several threads

---
 whatami/registry.py | 78 ++++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index fcf0304..41738cd 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -7,6 +7,7 @@
 from __future__ import absolute_import, print_function
 
 from copy import copy
+from threading import RLock
 
 from future.utils import string_types, with_metaclass
 
@@ -17,14 +18,27 @@ from whatami import what2id, is_iterable, decorate_some, ensure_has_positional_a
 from whatami.plugins import pd, toolz
 
 
+# Serialises changes to registries and recorders (shared by all instances, so these can still be copied and pickled)
+_CHANGES_LOCK = RLock()
+
+
 class WhatamiRegistry(object):
     """Bidirectional mapping, one-to-one, no persistence ATM (all should be in code), string to string (no thunks)."""
 
     def __init__(self, name='master'):
         super(WhatamiRegistry, self).__init__()
         self.name = name
-        self._id2nick = {}
-        self._nick2id = {}
+        # Both directions of the mapping; always replaced together, never modified in place,
+        # so other threads or an interrupted change can never see only one of the directions
+        self._bindings = {}, {}
+
+    @property
+    def _id2nick(self):
+        return self._bindings[0]
+
+    @property
+    def _nick2id(self):
+        return self._bindings[1]
 
     def register(self, what, nickname):
         """Registers the nickname for the id of what; returns `what` in the interest of fluent interfaces."""
@@ -36,19 +50,22 @@ class WhatamiRegistry(object):
 
         whatid = what2id(what)
 
-        i2n, n2i = self._id2nick, self._nick2id
+        with _CHANGES_LOCK:
+
+            i2n, n2i = self._id2nick.copy(), self._nick2id.copy()
 
-        # Ensure a one-to-one relationship; probably a nickname pointing to more than one id would be more useful
-        if nickname in n2i and not n2i[nickname] == whatid:
-            raise Exception('nickname "%s" is already associated with id "%s", delete it before updating' %
-                            (nickname, n2i[nickname]))
-        if whatid in i2n and not i2n[whatid] == nickname:
-            raise Exception('id "%s" is already associated with nickname "%s", delete it before updating' %
-                            (whatid, i2n[whatid]))
+            # Ensure a one-to-one relationship; probably a nickname pointing to more than one id would be more useful
+            if nickname in n2i and not n2i[nickname] == whatid:
+                raise Exception('nickname "%s" is already associated with id "%s", delete it before updating' %
+                                (nickname, n2i[nickname]))
+            if whatid in i2n and not i2n[whatid] == nickname:
+                raise Exception('id "%s" is already associated with nickname "%s", delete it before updating' %
+                                (whatid, i2n[whatid]))
 
-        # Add binding
-        i2n[whatid] = nickname
-        n2i[nickname] = whatid
+            # Add binding
+            i2n[whatid] = nickname
+            n2i[nickname] = whatid
+            self._bindings = i2n, n2i
 
         # Fluent
         return what
@@ -62,20 +79,23 @@ class WhatamiRegistry(object):
         If both are provided, they must correspond to a single entry.
         """
         whatid = None if what is None else what2id(what)
-        if nickname is None and whatid is None:
-            raise ValueError('at least one of nickname or what must be provided')
-        elif nickname is None:
-            nickname = self.id2nick(whatid)
-        elif what is None:
-            whatid = self.nick2id(nickname)
-        else:
-            old_whatid = self.nick2id(nickname)
-            old_nick = self.id2nick(whatid)
-            if old_whatid != whatid or old_nick != nickname:
-                raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
-                                 (whatid, old_whatid, nickname, old_nick))
-        del self._nick2id[nickname]
-        del self._id2nick[whatid]
+        with _CHANGES_LOCK:
+            if nickname is None and whatid is None:
+                raise ValueError('at least one of nickname or what must be provided')
+            elif nickname is None:
+                nickname = self.id2nick(whatid)
+            elif what is None:
+                whatid = self.nick2id(nickname)
+            else:
+                old_whatid = self.nick2id(nickname)
+                old_nick = self.id2nick(whatid)
+                if old_whatid != whatid or old_nick != nickname:
+                    raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
+                                     (whatid, old_whatid, nickname, old_nick))
+            i2n, n2i = self._id2nick.copy(), self._nick2id.copy()
+            del n2i[nickname]
+            del i2n[whatid]
+            self._bindings = i2n, n2i
 
     def nick2id(self, nickname):  # type: (str) -> Optional[str]
         """
@@ -98,8 +118,8 @@ class WhatamiRegistry(object):
 
     def reset(self):
         """Removes all entries in the registry."""
-        self._id2nick = {}
-        self._nick2id = {}
+        with _CHANGES_LOCK:
+            self._bindings = {}, {}
 
 
 # --- Registration helpers
-- 
2.43.0


From 5aa99a4ddca76800544610d53c4c789f4de2912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 03/57] fix: parsing ids from several threads at once no longer
 mixes up their parses

---
 whatami/parsers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 7cd8852..54d6868 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -5,6 +5,7 @@
 # Licence: BSD 3 clause
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
+from threading import RLock
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
 from whatami import maybe_import
 
@@ -263,6 +264,9 @@ class WhatamiTreeVisitor(PTNodeVisitor):
 DEFAULT_WHATAMI_PARSER = build_whatami_parser()
 DEFAULT_WHATAMI_VISITOR = WhatamiTreeVisitor()
 
+# Arpeggio parsers keep the state of the ongoing parse, so they cannot be used from several threads at once
+_PARSE_LOCK = RLock()
+
 
 def parse_whatid(id_string, parser=None, visitor=None):
     """
@@ -303,7 +307,9 @@ def parse_whatid(id_string, parser=None, visitor=None):
     if visitor is None:
         visitor = DEFAULT_WHATAMI_VISITOR
     try:
-        return visit_parse_tree(parser.parse(id_string), visitor=visitor)
+        with _PARSE_LOCK:
+            parse_tree = parser.parse(id_string)
+        return visit_parse_tree(parse_tree, visitor=visitor)
     except TypeError:
         # Remove this once arpeggio is released with this fix:
         # https://github.com/igordejanovic/Arpeggio/pull/21
-- 
2.43.0


From 39aaa1405fbe704bbde857f255dcd38383e08902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 04/57] fix: parse ids with an output name and no parameters

---
 whatami/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 54d6868..ebbbd72 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -247,6 +247,9 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         # lengths can be 1, 2 or 3
         if 3 == len(children):
             out_name, an_id, kvs = children
+        elif 2 == len(children) and 2 == len(children.an_id):
+            out_name, an_id = children
+            kvs = []
         elif 2 == len(children):
             an_id, kvs = children
             out_name = None
-- 
2.43.0


From 24f08a9bfe69414ace254cd844463b241b6b8d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 05/57] fix: parsing ids keeps the blanks at the beginning of
 strings

---
 whatami/parsers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index ebbbd72..ae7dbf7 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -50,7 +50,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # Just one match, so blanks at the beginning of the string are not skipped
+        return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
         return StrMatch('True')
@@ -152,12 +153,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
             return float(node.value)
 
     @staticmethod
-    def visit_a_string(_, children):
-        if 1 == len(children):
-            return children[0]
-        elif 0 == len(children):
-            return ''
-        raise ValueError('unexpected string children: %r' % children)  # pragma: no cover
+    def visit_a_string(node, _):
+        return node.value[1:-1]
 
     @staticmethod
     def visit_a_true(*_):
@@ -352,7 +349,8 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # Just one match, so blanks at the beginning of the string are not skipped
+        return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
         return StrMatch('True')
-- 
2.43.0


From f9d439afee312fd105f891dc96be0f443f9b3db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 06/57] fix: parse nested ids whose names start like None,
 True, False, inf or nan

---
 whatami/parsers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index ae7dbf7..b96065d 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -47,23 +47,23 @@ def build_whatami_parser(reduce_tree=False, debug=False):
 
     def a_number():
         return [RegExMatch('-?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?'),
-                StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
+                RegExMatch(r'-inf\b'), RegExMatch(r'inf\b'), RegExMatch(r'nan\b')]
 
     def a_string():
         # Just one match, so blanks at the beginning of the string are not skipped
         return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
-        return StrMatch('True')
+        return RegExMatch(r'True\b')
 
     def a_false():
-        return StrMatch('False')
+        return RegExMatch(r'False\b')
 
     def a_bool():
         return [a_true, a_false]
 
     def a_none():
-        return StrMatch('None')
+        return RegExMatch(r'None\b')
 
     # Classes / types
 
@@ -346,23 +346,23 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
 
     def a_number():
         return [RegExMatch('-?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?'),
-                StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
+                RegExMatch(r'-inf\b'), RegExMatch(r'inf\b'), RegExMatch(r'nan\b')]
 
     def a_string():
         # Just one match, so blanks at the beginning of the string are not skipped
         return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
-        return StrMatch('True')
+        return RegExMatch(r'True\b')
 
     def a_false():
-        return StrMatch('False')
+        return RegExMatch(r'False\b')
 
     def a_bool():
         return [a_true, a_false]
 
     def a_none():
-        return StrMatch('None')
+        return RegExMatch(r'None\b')
 
     # Collection types: lists, tuples, dictionaries
 
-- 
2.43.0


From 163c0fe4c75766a1cbec2f12037ae2cefbac3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 07/57] fix: parse ids with builtin classes

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index b96065d..b1365fb 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -181,7 +181,7 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_class(_, children):
         module, _, clazz = children[0].rpartition('.')
         try:
-            return getattr(maybe_import(module), clazz)
+            return getattr(maybe_import(module or 'builtins'), clazz)
         except (ImportError, AttributeError):
             # Unfortunately it breaks roundtripping, but is a lesser evil
             return {'class': children[0]}
-- 
2.43.0


From e6dfa96947f6f7a7fcdff277ee64b036ef35148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 08/57] fix: changing the configuration of a whatable function
 does not change its later configurations

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 0f85db4..96e7837 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -515,7 +515,8 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=excludes)
+            # N.B. each What gets its own configuration dictionary
+            whatablefunc.what = lambda: What(name=name, conf=dict(config_dict), non_id_keys=excludes)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From c9bb407d6f9b9e2b79285c8271ff87a240183590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 09/57] fix: whatable does not hide interruptions
 (KeyboardInterrupt, SystemExit)

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 96e7837..5243a90 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -556,5 +556,5 @@ def whatable(obj=None,
         else:
             obj.what = types.MethodType(whatablefunc, obj)
         return obj
-    except:
+    except Exception:
         raise Exception('cannot whatamise %s' % type(obj))
-- 
2.43.0


From 2a0ee279c95db1d6cc64a194532600b6fea322c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 10/57] fix: what2id does not hide AttributeErrors raised when
 describing the object

---
 whatami/whatutils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 8f41fff..6b353f1 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -69,13 +69,14 @@ def what2id(obj):
         return None
     if isinstance(obj, string_types):
         return obj
-    try:
-        return obj.what().id()
-    except AttributeError:
-        try:
-            return obj.id()
-        except AttributeError:
-            return whatareyou(obj).id()
+    # N.B. an AttributeError raised by what() or id() themselves must not be taken for a missing method
+    if hasattr(obj, 'what'):
+        what = obj.what()
+        if hasattr(what, 'id'):
+            return what.id()
+    if hasattr(obj, 'id'):
+        return obj.id()
+    return whatareyou(obj).id()
 
 
 # An alias for whatami.parse_whatid
-- 
2.43.0


From cb03a0c8ac55aafd7496fb22df0e8d50280dfa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 11/57] fix: a what() method that fails is reported, instead of
 getting another id for the object

---
 whatami/what.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 5243a90..de8bdff 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -390,9 +390,11 @@ def is_whatable(obj):
                 return True
             raise Exception('Cannot infer return type for unbound method what, '
                             'please pass a %r instance instead of the class' % obj)
-        return isinstance(what_method(), What)
+        inspect.getcallargs(what_method)  # fails if what needs parameters
     except Exception:
         return False
+    # N.B. if what itself fails, tell; otherwise the object would silently get a wrong id
+    return isinstance(what_method(), What)
 
 
 def whatable(obj=None,
-- 
2.43.0


From 4846c0b91221da539597b30668082392bbd07de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 12/57] fix: maybe_import returns the first importable variant

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4537a41..978f7c4 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -709,6 +709,7 @@ class _LazyImportError(object):
         for variant in variants:
             try:
                 self.module = import_module(variant)
+                break
             except ImportError as ie:
                 self._errors.append((variant, ie))
         # Autogenerate install hint
-- 
2.43.0


From 88ec096909eaf5577f49af3d27366ddbced5c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 13/57] fix: import_submodules keeps its options in subpackages
 and looks only inside the package

---
 whatami/misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 978f7c4..d32bb86 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import
 # noinspection PyProtectedMember
 from future.utils import PY3, string_types
 
-from pkgutil import walk_packages
+from pkgutil import iter_modules
 
 from functools import partial
 from itertools import chain
@@ -819,7 +819,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 return results
             raise
     results[package.__name__] = package
-    for _, name, is_pkg in walk_packages(package.__path__):
+    for _, name, is_pkg in iter_modules(package.__path__):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
@@ -828,7 +828,9 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 raise
         if recurse_packages and is_pkg:
             try:
-                results.update(import_submodules(full_name))
+                results.update(import_submodules(full_name,
+                                                 recurse_packages=recurse_packages,
+                                                 ignore_errors=ignore_errors))
             except ImportError:  # pragma: no cover
                 if not ignore_errors:
                     raise
-- 
2.43.0


From 97044793d76639e51af884428c81e13bb87dcda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 14/57] fix: call2what returns a snapshot of the caller locals

---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 6b353f1..322618f 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -230,7 +230,7 @@ def call2what(depth=1, non_id_keys=None):
     frame, _, _, name, _, _ = inspect.stack()[depth]
     # we could probably be (too) clever here and get only the function parameter values
     # also we could add a parameter to automatically grab only keywords... for next iteration
-    conf_dict = frame.f_locals
+    conf_dict = dict(frame.f_locals)  # a snapshot, f_locals can be a live view
     return What(name, conf=conf_dict, non_id_keys=non_id_keys)
 
 
-- 
2.43.0


From 90341991abd25cd1481ca720e9c6fcc84a2f640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 15/57] fix: ids can be generated when the optional numpy and
 pandas fail to import

---
 whatami/plugins.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index f20fd10..43ea727 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -212,26 +212,26 @@ pd = maybe_import('pandas', 'conda')
 
 def has_pandas():
     """Returns True iff pandas can be imported."""
-    return pd is not None
+    return inspect.ismodule(pd)
 
 
 def numpy_plugin(v):
     """Represents numpy arrays as "class(hash='xxx')"."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.ndarray):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
 
 
 def rng_plugin(v):
     """Represents a numpy rng as a string RandomState(state=xxx)."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.random.RandomState):
             return "%s(state=%s)" % (v.__class__.__name__, whatareyou(v.__getstate__()).id())
 
 
 def pandas_plugin(v):
     """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
-    if pd is not None and hasher is not None:
+    if has_pandas() and hasher is not None:
         if isinstance(v, (pd.DataFrame, pd.Series)):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
     #
-- 
2.43.0


From b8fdb566c95003530243de559155b5ce3539cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 16/57] fix: plugin manager errors with plugins that have no
 name (e.g. partials)

---
 whatami/plugins.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 43ea727..492ecaf 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -321,6 +321,11 @@ class WhatamiPluginManager(object):
 
     PLUGINS = DEFAULT_PLUGINS
 
+    @staticmethod
+    def _plugin_name(plugin):
+        # partials and callable instances have no __name__
+        return getattr(plugin, '__name__', plugin)
+
     @classmethod
     def plugins(cls):
         """Returns a tuple with the currently considered plugins."""
@@ -345,7 +350,7 @@ class WhatamiPluginManager(object):
             plugins.remove(plugin)
             cls.PLUGINS = tuple(plugins)
         except ValueError:
-            raise ValueError('cannot drop plugin %s, not in plugins list' % plugin.__name__)
+            raise ValueError('cannot drop plugin %s, not in plugins list' % cls._plugin_name(plugin))
 
     @classmethod
     def insert(cls, plugin, before=anyobject0x_plugin):
@@ -366,7 +371,7 @@ class WhatamiPluginManager(object):
         ValueError if plugin is already in the list of registered plugins of if before is not in the list.
         """
         if plugin in cls.PLUGINS:
-            raise ValueError('cannot insert plugin %s, already in plugins list' % plugin.__name__)
+            raise ValueError('cannot insert plugin %s, already in plugins list' % cls._plugin_name(plugin))
         plugins = list(cls.PLUGINS)
         if before is None:
             plugins.append(plugin)
@@ -375,7 +380,7 @@ class WhatamiPluginManager(object):
                 index = plugins.index(before)
                 plugins.insert(index, plugin)
             except ValueError:
-                raise ValueError('plugin to insert before (%s) not in plugins list' % before.__name__)
+                raise ValueError('plugin to insert before (%s) not in plugins list' % cls._plugin_name(before))
         cls.PLUGINS = tuple(plugins)
 
     @classmethod
-- 
2.43.0


From faba35611e2d40e444396b96444e096c73e08c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 17/57] fix: no plugin change is lost when several threads
 change the plugins at once

---
 whatami/plugins.py | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 492ecaf..e684dff 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -9,6 +9,7 @@ from future.utils import string_types, PY2
 import inspect
 from collections import OrderedDict
 from functools import partial
+from threading import RLock
 
 from whatami import getargspec, is_whatable
 
@@ -321,6 +322,8 @@ class WhatamiPluginManager(object):
 
     PLUGINS = DEFAULT_PLUGINS
 
+    _CHANGES_LOCK = RLock()  # so no change is lost if several threads make changes at once
+
     @staticmethod
     def _plugin_name(plugin):
         # partials and callable instances have no __name__
@@ -334,7 +337,8 @@ class WhatamiPluginManager(object):
     @classmethod
     def reset(cls):
         """Makes the plugin list the default list."""
-        cls.PLUGINS = cls.DEFAULT_PLUGINS
+        with cls._CHANGES_LOCK:
+            cls.PLUGINS = cls.DEFAULT_PLUGINS
 
     @classmethod
     def drop(cls, plugin):
@@ -345,12 +349,13 @@ class WhatamiPluginManager(object):
         plugin : function
           The plugin to drop
         """
-        plugins = list(cls.PLUGINS)
-        try:
-            plugins.remove(plugin)
-            cls.PLUGINS = tuple(plugins)
-        except ValueError:
-            raise ValueError('cannot drop plugin %s, not in plugins list' % cls._plugin_name(plugin))
+        with cls._CHANGES_LOCK:
+            plugins = list(cls.PLUGINS)
+            try:
+                plugins.remove(plugin)
+                cls.PLUGINS = tuple(plugins)
+            except ValueError:
+                raise ValueError('cannot drop plugin %s, not in plugins list' % cls._plugin_name(plugin))
 
     @classmethod
     def insert(cls, plugin, before=anyobject0x_plugin):
@@ -370,18 +375,19 @@ class WhatamiPluginManager(object):
         ------
         ValueError if plugin is already in the list of registered plugins of if before is not in the list.
         """
-        if plugin in cls.PLUGINS:
-            raise ValueError('cannot insert plugin %s, already in plugins list' % cls._plugin_name(plugin))
-        plugins = list(cls.PLUGINS)
-        if before is None:
-            plugins.append(plugin)
-        else:
-            try:
-                index = plugins.index(before)
-                plugins.insert(index, plugin)
-            except ValueError:
-                raise ValueError('plugin to insert before (%s) not in plugins list' % cls._plugin_name(before))
-        cls.PLUGINS = tuple(plugins)
+        with cls._CHANGES_LOCK:
+            if plugin in cls.PLUGINS:
+                raise ValueError('cannot insert plugin %s, already in plugins list' % cls._plugin_name(plugin))
+            plugins = list(cls.PLUGINS)
+            if before is None:
+                plugins.append(plugin)
+            else:
+                try:
+                    index = plugins.index(before)
+                    plugins.insert(index, plugin)
+                except ValueError:
+                    raise ValueError('plugin to insert before (%s) not in plugins list' % cls._plugin_name(before))
+            cls.PLUGINS = tuple(plugins)
 
     @classmethod
     def build_string(cls, v):
-- 
2.43.0


From 1f0176383792cd3448600aca441933c3459f522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 18/57] fix: Recorder.add distributes iterable columns among
 any kind of ids (numbers, reserved words...)

---
 whatami/registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 41738cd..208b313 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -126,8 +126,8 @@ class WhatamiRegistry(object):
 
 class _DefaultDict(dict):
     """Like collections.defaultdict, but does not add missing keys to the dictionary."""
-    def __init__(self, default, **kwargs):
-        super(_DefaultDict, self).__init__(**kwargs)
+    def __init__(self, default, mapping=()):
+        super(_DefaultDict, self).__init__(mapping)
         self.default = default
 
     def __getitem__(self, key):
@@ -581,7 +581,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             if warn and len(ids) != len(params):  # pragma: no cover
                 print('WARNING: number of names is different to the number of parameters (%d != %d)' %
                       (len(ids), len(params)))
-            return _DefaultDict(None, **dict(zip(ids, params)))
+            return _DefaultDict(None, zip(ids, params))
         return _DefaultDict(default=params)
 
     def add(self, ids, unbox_iterables=True,
-- 
2.43.0


From 3eb135573903c7d5f5a58157edce7d4b8e68acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 19/57] fix: recorders do not share their postprocessors with
 each other or with the caller

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 208b313..6c28cfe 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -532,7 +532,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             raise ValueError('id_column_name must be a string')  # pragma: no cover
         self.id_column_name = id_column_name
         self._column_defaults = column_defaults
-        self._record_postprocessors = [] if not record_postprocessors else record_postprocessors
+        self._record_postprocessors = [] if not record_postprocessors else list(record_postprocessors)
 
     # --- Column defaults
 
-- 
2.43.0


From 1f0095d1b56fc73973762fb6dead3033740e6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 20/57] fix: Recorder.add never replaces records added
 meanwhile by a postprocessor or other thread

---
 whatami/registry.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 6c28cfe..723880c 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -676,8 +676,12 @@ class Recorder(with_metaclass(_RecorderMeta)):
                 record = function(an_id, record, self)
             # Add record to registry
             records[an_id] = record
-        # All correct, commit
-        self._registry.update(records)
+        # All correct, commit (unless other add, from a postprocessor or other thread, has been faster)
+        with _CHANGES_LOCK:
+            for an_id in records:
+                if an_id in self._registry:
+                    raise Exception('"%s" is already in the registry' % an_id)
+            self._registry.update(records)
         return records
 
     def padd(self, add=None, **kwargs):
@@ -700,7 +704,9 @@ class Recorder(with_metaclass(_RecorderMeta)):
 
     def unique(self, column):
         """Returns a set with the unique values of a column in the registry."""
-        return {record[column] for record in self._registry.values() if column in record}
+        with _CHANGES_LOCK:
+            records = list(self._registry.values())
+        return {record[column] for record in records if column in record}
 
     # --- Other utils
 
-- 
2.43.0


From 822f0b9eb8c319ff2ef357b4fd8c0faafd95da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 21/57] fix: sklearn objects without get_params that are not
 declared can be described

---
 whatami/wrappers/what_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index a8c2f90..597596c 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -603,8 +603,8 @@ def _what_for_sklearn(x, use_short=True):
     except AttributeError:
         return obj2what(x,
                         force_inspect=True,
-                        name_override=pinfo.short_name if use_short else name,
-                        non_id_keys=pinfo.non_id_params)
+                        name_override=pinfo.short_name if pinfo is not None and use_short else name,
+                        non_id_keys=pinfo.non_id_params if pinfo is not None else None)
     if pinfo is not None:
         return What(pinfo.short_name if use_short else name,
                     conf=configuration_dict,
-- 
2.43.0


From a3d66640bce3574068cfa739aeda91ae3c9946a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 22/57] fix: Recorder.add without id extractor adds all the
 records when ids is an iterator

---
 whatami/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 723880c..aecb40a 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -640,8 +640,8 @@ class Recorder(with_metaclass(_RecorderMeta)):
         if isinstance(ids, string_types) or not is_iterable(ids):
             ids = [ids]
         # Get whatami ids (maybe this should be left to the caller)
-        if self.id_extractor is not None:
-            ids = list(map(self.id_extractor, ids))
+        # N.B. always make a list, the ids are iterated several times
+        ids = list(ids) if self.id_extractor is None else list(map(self.id_extractor, ids))
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
-- 
2.43.0


From 97c588879af6291d86b8d9a014a62f0cb8f6c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 23/57] fix: is_whatable does not take lack of memory or too
 deep recursion for a missing what

---
 whatami/what.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index de8bdff..1d6071e 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -391,6 +391,8 @@ def is_whatable(obj):
             raise Exception('Cannot infer return type for unbound method what, '
                             'please pass a %r instance instead of the class' % obj)
         inspect.getcallargs(what_method)  # fails if what needs parameters
+    except (MemoryError, RuntimeError):
+        raise  # lack of memory or too deep recursion tell nothing about obj
     except Exception:
         return False
     # N.B. if what itself fails, tell; otherwise the object would silently get a wrong id
-- 
2.43.0


From 3b3a255e143decc442b68dbcd08fd59a620bbf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 24/57] fix: a StopIteration raised by what() does not truncate
 the id of collections

---
 whatami/plugins.py | 9 ++++++---
 whatami/what.py    | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index e684dff..9b8085d 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -83,7 +83,8 @@ def dict_plugin(v):
 def set_plugin(v):
     """Generates an id for python sets and frozensets, sorting the elements for id uniqueness."""
     if isinstance(v, (set, frozenset)):
-        elements = sorted(map(WhatamiPluginManager.build_string, v))
+        # N.B. do not use map, that takes a StopIteration raised when describing an element for the end of the elements
+        elements = sorted([WhatamiPluginManager.build_string(element) for element in v])
         if type(v) == frozenset:
             return 'frozenset({%s})' % ','.join(elements) if elements else 'frozenset()'
         id_string = '{%s}' % ','.join(elements) if len(elements) > 0 else 'set()'
@@ -95,7 +96,8 @@ def set_plugin(v):
 def list_plugin(v):
     """Generate a unique id for lists."""
     if isinstance(v, list):
-        id_string = '[%s]' % ','.join(map(WhatamiPluginManager.build_string, v))
+        # N.B. do not use map, see set_plugin
+        id_string = '[%s]' % ','.join([WhatamiPluginManager.build_string(element) for element in v])
         if type(v) == list:
             return id_string
         return '%s(seq=%s)' % (v.__class__.__name__, id_string)
@@ -104,7 +106,8 @@ def list_plugin(v):
 def tuple_plugin(v):
     """Generate a unique id for tuples."""
     if isinstance(v, tuple):
-        id_string = '(%s)' % ','.join(map(WhatamiPluginManager.build_string, v))
+        # N.B. do not use map, see set_plugin
+        id_string = '(%s)' % ','.join([WhatamiPluginManager.build_string(element) for element in v])
         if type(v) == tuple:
             return id_string
         return '%s(seq=%s)' % (v.__class__.__name__, id_string)
diff --git a/whatami/what.py b/whatami/what.py
index 1d6071e..fb261fd 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -281,8 +281,8 @@ class What(object):
           If <= 0, it is ignored and the full id string will be returned.
         """
         from whatami.plugins import WhatamiPluginManager
-        my_id = '%s(%s)' % (self.name, ','.join(map(WhatamiPluginManager.build_string,
-                                                    self.values(non_ids_too=non_ids_too))))
+        my_id = '%s(%s)' % (self.name, ','.join([WhatamiPluginManager.build_string(value)
+                                                    for value in self.values(non_ids_too=non_ids_too)]))
         if self.out_name is not None:
             my_id = '%s=%s' % (self.out_name, my_id)
         return self._trim_too_long(my_id, maxlength=maxlength)
-- 
2.43.0


From 30508d68bcad9d3e7e394afb8b2ff9cb72d80e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 25/57] fix: a StopIteration raised by an id extractor does not
 drop the rest of the records

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index aecb40a..5237d17 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -641,7 +641,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             ids = [ids]
         # Get whatami ids (maybe this should be left to the caller)
         # N.B. always make a list, the ids are iterated several times
-        ids = list(ids) if self.id_extractor is None else list(map(self.id_extractor, ids))
+        ids = list(ids) if self.id_extractor is None else [self.id_extractor(an_id) for an_id in ids]
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
-- 
2.43.0


From 82c6a51446c9147f18170ae7bb6c170d6e277f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 26/57] fix: too deep recursion inside inspect does not turn
 into a wrong id

---
 whatami/misc.py | 9 ++++++++-
 whatami/what.py | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index d32bb86..c89b3a2 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -64,7 +64,14 @@ def getargspec(func):  # pragma: no cover
     # new model (kwonly, annotations)
     if PY3:
         # noinspection PyUnresolvedReferences
-        return inspect.getfullargspec(func)[:4]
+        try:
+            return inspect.getfullargspec(func)[:4]
+        except TypeError as e:
+            # inspect hides any problem as the cause of a TypeError, but lack of memory
+            # or too deep recursion do not tell that func has no arguments specification
+            if isinstance(e.__cause__, (MemoryError, RuntimeError)):
+                raise e.__cause__
+            raise
     else:
         return inspect.getargspec(func)
 
diff --git a/whatami/what.py b/whatami/what.py
index fb261fd..33ff48a 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -393,7 +393,10 @@ def is_whatable(obj):
         inspect.getcallargs(what_method)  # fails if what needs parameters
     except (MemoryError, RuntimeError):
         raise  # lack of memory or too deep recursion tell nothing about obj
-    except Exception:
+    except Exception as e:
+        # inspect hides any problem as the cause of a TypeError
+        if isinstance(getattr(e, '__cause__', None), (MemoryError, RuntimeError)):
+            raise e.__cause__
         return False
     # N.B. if what itself fails, tell; otherwise the object would silently get a wrong id
     return isinstance(what_method(), What)
-- 
2.43.0


From bd08aa6844c6aba79445bfe3f7d8a47dc6300c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 27/57] fix: maybe_import_member accepts import variants

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index c89b3a2..07884ba 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -792,7 +792,7 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
     if not module:
         raise ValueError('Please provide a FQN, including module name (was given %r)' % member_fqn)
     try:
-        return getattr(maybe_import(module, install_msg=install_msg, *variants), member)
+        return getattr(maybe_import(module, install_msg, *variants), member)
     except ImportError:
         if fail_if_import_error:
             raise
-- 
2.43.0


From 2734743355ce755d15db441461ea29027556d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 28/57] fix: has_numpy and has_pandas tell that the libraries
 are missing instead of failing

---
 whatami/plugins.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 9b8085d..0411877 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -10,6 +10,7 @@ import inspect
 from collections import OrderedDict
 from functools import partial
 from threading import RLock
+from types import ModuleType
 
 from whatami import getargspec, is_whatable
 
@@ -206,9 +207,15 @@ hasher = partial(hasher, hash_name='md5')
 np = maybe_import('numpy', 'conda')
 
 
+def _is_imported(library):
+    """Returns True iff library is the module that maybe_import returns when the import succeeds."""
+    # N.B. do not use isinstance, it asks for __class__ and so lazy import errors would be raised
+    return issubclass(type(library), ModuleType)
+
+
 def has_numpy():
     """Returns True iff numpy can be imported."""
-    return inspect.ismodule(np)
+    return _is_imported(np)
 
 
 pd = maybe_import('pandas', 'conda')
@@ -216,7 +223,7 @@ pd = maybe_import('pandas', 'conda')
 
 def has_pandas():
     """Returns True iff pandas can be imported."""
-    return inspect.ismodule(pd)
+    return _is_imported(pd)
 
 
 def numpy_plugin(v):
-- 
2.43.0


From 003516442bc56dd56ddbdcf59e97681769ceb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 29/57] fix: an AttributeError raised by get_params does not
 get another id for sklearn objects

---
 whatami/wrappers/what_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index 597596c..e57b7e4 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -598,9 +598,9 @@ def _what_for_sklearn(x, use_short=True):
     """Returns a What configuration for the scikit learn estimator x."""
     name = x.__class__.__name__
     pinfo = _SKLRegistry.get(name, None)
-    try:
+    if hasattr(x, 'get_params'):
         configuration_dict = x.get_params(deep=False)   # N.B. we take care of recursing ourselves
-    except AttributeError:
+    else:
         return obj2what(x,
                         force_inspect=True,
                         name_override=pinfo.short_name if pinfo is not None and use_short else name,
-- 
2.43.0


From 5d6ecaf078b714b754801e61263502c6423c254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 30/57] fix: a TypeError raised by an element of a dictionary
 does not change the hash

---
 whatami/minijoblib/hashing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index a46a360..46f5639 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -143,12 +143,14 @@ class Hasher(Pickler):
             # consistent and orderable.
             # This fails on python 3 when keys are unorderable
             # but we keep it in a try as it's faster.
-            Pickler._batch_setitems(self, iter(sorted(items)))
+            items = sorted(items)
         except TypeError:
             # If keys are unorderable, sorting them using their hash. This is
             # slower but works in any case.
-            Pickler._batch_setitems(self, iter(sorted((hasher(k), v)
-                                                      for k, v in items)))
+            items = sorted((hasher(k), v) for k, v in items)
+        # N.B. outside the try, a TypeError when pickling must not be taken
+        # for unorderable keys
+        Pickler._batch_setitems(self, iter(items))
 
     def save_set(self, set_items):
         # forces order of items in Set to ensure consistent hash
-- 
2.43.0


From d1c97ea98eba9e0d0c7fd337dd6aa81bc792b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 31/57] fix: Recorder.to_df does not fail if there are records
 without columns

---
 whatami/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 5237d17..9273e64 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -715,4 +715,5 @@ class Recorder(with_metaclass(_RecorderMeta)):
         Returns a pandas dataframe with records in rows and as many columns as different attributes.
         It is sorted by insertion order.
         """
-        return pd.DataFrame.from_dict(self._registry, orient='index').loc[self._registry.keys()]
+        # N.B. from_dict leaves out the records without columns
+        return pd.DataFrame.from_dict(self._registry, orient='index').reindex(list(self._registry))
-- 
2.43.0


From 6ee7ed75ededebb16e100f7f7faed03205a47aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 32/57] fix: the hash of frozensets and of partially ordered
 elements does not depend on their order

---
 whatami/minijoblib/hashing.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 46f5639..eb5a348 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -23,6 +23,16 @@ else:
     Pickler = pickle.Pickler
 
 
+def _strictly_sorted(elements):
+    """ Like sorted, but raises TypeError also when some elements cannot
+        be ordered but do not tell (e.g. sets, for which < is "subset of").
+    """
+    elements = sorted(elements)
+    if not all(a < b for a, b in zip(elements, elements[1:])):
+        raise TypeError('unorderable elements')
+    return elements
+
+
 class _ConsistentSet(object):
     """ Class used to ensure the hash of Sets is preserved
         whatever the order of its items.
@@ -34,13 +44,18 @@ class _ConsistentSet(object):
             # consistent and orderable.
             # This fails on python 3 when elements are unorderable
             # but we keep it in a try as it's faster.
-            self._sequence = sorted(set_sequence)
+            self._sequence = _strictly_sorted(set_sequence)
         except TypeError:
             # If elements are unorderable, sorting them using their hash.
             # This is slower but works in any case.
             self._sequence = sorted((hasher(e) for e in set_sequence))
 
 
+class _ConsistentFrozenSet(_ConsistentSet):
+    """ Like _ConsistentSet, for frozensets.
+    """
+
+
 class _MyHash(object):
     """ Class used to hash objects that won't normally pickle """
 
@@ -143,7 +158,7 @@ class Hasher(Pickler):
             # consistent and orderable.
             # This fails on python 3 when keys are unorderable
             # but we keep it in a try as it's faster.
-            items = sorted(items)
+            items = _strictly_sorted(items)
         except TypeError:
             # If keys are unorderable, sorting them using their hash. This is
             # slower but works in any case.
@@ -158,6 +173,11 @@ class Hasher(Pickler):
 
     dispatch[type(set())] = save_set
 
+    def save_frozenset(self, set_items):
+        Pickler.save(self, _ConsistentFrozenSet(set_items))
+
+    dispatch[type(frozenset())] = save_frozenset
+
 
 class NumpyHasher(Hasher):
     """ Special case the hasher for when numpy is loaded.
-- 
2.43.0


From 1ddd864231f28da9f3ebc40c6fe7e901875ab198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 33/57] fix: parsing an id unescapes the quotes of its strings

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index b1365fb..1519a2a 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -154,7 +154,7 @@ class WhatamiTreeVisitor(PTNodeVisitor):
 
     @staticmethod
     def visit_a_string(node, _):
-        return node.value[1:-1]
+        return node.value[1:-1].replace("\\'", "'")  # see string_plugin
 
     @staticmethod
     def visit_a_true(*_):
-- 
2.43.0


From 54cf7f68eea06fea7073e8c7bff987de27f0f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 34/57] fix: decorate_some applies the same decorators to all
 the classes and does not change the given namespaces

---
 whatami/misc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 07884ba..d6e660b 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -684,13 +684,16 @@ def decorate_some(name='DecorateSome', **decorators):
     Decorator 1
     Called foo at Sub
     """
+    # N.B. the decorators will be used once per class, also if they come in an iterator
+    decorators = {attr: list(attr_decorators) if is_iterable(attr_decorators) else [attr_decorators]
+                  for attr, attr_decorators in decorators.items()}
+
     def new_decorate(mcs, name, bases=None, d=None):
         # Use a closure to keep metaclass parameters
         # Alternative: add a "decorators" member to the metaclass "mcs" dictionary
+        d = dict(d)  # N.B. the namespace is owned by the caller
         for attr, attr_decorators in decorators.items():
             if attr in d:
-                if not is_iterable(attr_decorators):
-                    attr_decorators = [attr_decorators]
                 for attr_decorator in attr_decorators:
                     d[attr] = attr_decorator(d[attr])
         return type.__new__(mcs, name, bases, d)
-- 
2.43.0


From 617dab1371ec1b3ce981d58832c62c0bf863611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 35/57] fix: What.get returns the default also for paths
 through things that are not configurations

---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 33ff48a..3c50d8d 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -225,7 +225,11 @@ class What(object):
                     try:
                         w = w[key]
                     except TypeError:
+                        if not hasattr(w, 'what'):
+                            raise KeyError(item)
                         w = w.what()[key]
+                    except IndexError:
+                        raise KeyError(item)
                 return w
             raise
 
-- 
2.43.0


From e5b58d728fc5f6ab5cb8821fc09a37965b245c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 36/57] fix: match_whatids accepts the ignored keys in an
 iterator

---
 whatami/whatutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 322618f..c2d45c7 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -300,6 +300,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
     # Slow but somehow clear implementation ahead, based on What.flatten
     # Alternatives: nasty recursion, make flatten take a visitor that can abort...
 
+    ignored_keys = set(ignored_keys)
     template_what = id2what(template_whatid)
     template_name = template_what.name
     template_keys, template_values = template_what.flatten(non_ids_too=non_ids_too,
@@ -316,7 +317,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
 
     def not_ignored_values(keys, values):
         return [(value.name, value.out_name) if isinstance(value, What) else value
-                for key, value in zip(keys, values) if not ignore_key(key, set(ignored_keys))]
+                for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
         if what.name != template_name:
-- 
2.43.0


From 88a4fd6cb7af25e62fc3b404206c4d5229862a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 37/57] fix: sort_whatids accepts the ids in an iterator

---
 whatami/whatutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index c2d45c7..0b6fee4 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -195,6 +195,7 @@ def sort_whatids(whatids, *keys):
     >>> [what['lag'] for what in map(id2what, ids_sorted)]
     [-2, -1, 0, 1, 2]
     """
+    whatids = list(whatids)
     whats = map(id2what, whatids)  # if this is bottleneck, allow to pass what themselves
     values = [whatvalues(what, keys) for what in whats]
     # noinspection PyTypeChecker
-- 
2.43.0


From d9aa24398477fe53bb6e2c968fdd45a70993f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 38/57] fix: whatid2columns works when a new column overwrites
 the ids, and a failure does not leave some columns added

---
 whatami/whatutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 0b6fee4..6fac046 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -374,12 +374,17 @@ def whatid2columns(df, whatid_col, columns=None, prefix='', postfix='', inplace=
     if not inplace:
         df = df.copy()
 
+    new_columns = []
     for column in columns:
         column_name = _key2colname(column)
         if isinstance(column, list):
             column = tuple(column)
-        df[prefix + column_name + postfix] = df[whatid_col].apply(
-            lambda whatid: _get_or_none(whats[whatid], column))
+        new_columns.append((prefix + column_name + postfix,
+                            df[whatid_col].apply(lambda whatid: _get_or_none(whats[whatid], column))))
+
+    # N.B. a new column can overwrite the column with the ids
+    for column_name, values in new_columns:
+        df[column_name] = values
 
     return df
 
-- 
2.43.0


From 34a815d39b1ef6d83807bd058f37da18037928f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:08 +0000
Subject: [PATCH 39/57] fix: the arguments of nested partials come in the order
 of the call

callable2call put the positional arguments of the outer partial before those
of the inner one: partial(curry(f, 1), 2) was described as f(2, 1)
---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index d6e660b..05675b6 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -329,7 +329,7 @@ def callable2call(c, closure_extractor=lambda c: c):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
                 c.func,
-                positional=positional + list(c.args),                  # N.B. order matters
+                positional=list(c.args) + positional,                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
-- 
2.43.0


From 4161110809c3e5e8f31ddc3d4901550f3e70a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:06 +0000
Subject: [PATCH 40/57] fix: a positional argument of a partial can be of a
 parameter with default

callable2call refused partial(f, 1) for def f(x=2), as if x was also given by name
---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 05675b6..11aa18f 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -311,7 +311,7 @@ def callable2call(c, closure_extractor=lambda c: c):
             args = [] if not args else args
             args_set = set(args)
             # Check that everything is fine...
-            keywords = dict(chain(zip(args[-len(defaults):], defaults), keywords.items()))  # N.B. order matters
+            defaults = dict(zip(args[-len(defaults):], defaults))
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
             keywords_set = set(keywords.keys())
             if len(keywords_set - args_set) > 0:
@@ -324,7 +324,7 @@ def callable2call(c, closure_extractor=lambda c: c):
                 raise ValueError('There are too many positional arguments indicated '
                                  'for the number of unbound positional parameters left.')
             return c.__name__.replace('<', '').replace('>', ''), \
-                dict(list(keywords.items()) + list(pos2keyword.items()))
+                dict(chain(defaults.items(), keywords.items(), pos2keyword.items()))  # N.B. order matters
         if isinstance(c, partial):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
-- 
2.43.0


From 5ce713fe53cf15b6054f6d91e6e4b0332d37efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 41/57] fix: partials of whatable functions are described as
 partials of the functions

partial(whatable(f)) was f() whatever its defaults, and refused any argument but
inside whatable; partials of whatable partials were all whatablefunc()
---
 whatami/misc.py    | 6 +++++-
 whatami/plugins.py | 5 +++--
 whatami/what.py    | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 11aa18f..91fc2f9 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -306,6 +306,8 @@ def callable2call(c, closure_extractor=lambda c: c):
         if inspect.isfunction(c):
             if is_closure(c):  # allow custom behavior with closures
                 c = closure_extractor(c)
+                if isinstance(c, partial):
+                    return callable2call_recursive(c, positional=positional, keywords=keywords)
             args, _, _, defaults = getargspec(c)
             defaults = [] if not defaults else defaults
             args = [] if not args else args
@@ -577,13 +579,15 @@ def is_closure(c):
 
 def extract_decorated_function_from_closure(c):
     """
-    Extracts a function from closure c iff the closure only have one cell mapping to a function
+    Extracts a function (or partial) from closure c iff the closure only have one cell mapping to it
     and also has a method 'what'.
     (this ad-hoc behavior could help to play well with the whatable decorator)
     """
     closure = c.__closure__
     if closure is not None and len(closure) == 1 and hasattr(c, 'what'):
         func = closure[0].cell_contents
+        if isinstance(func, partial):
+            return func
         if inspect.isfunction(func):
             return extract_decorated_function_from_closure(func)
     return c
diff --git a/whatami/plugins.py b/whatami/plugins.py
index 0411877..e886564 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -17,7 +17,8 @@ from whatami import getargspec, is_whatable
 from whatami.misc import maybe_import
 
 from .what import What, whatareyou
-from .misc import callable2call, config_dict_for_object, curry2partial
+from .misc import (callable2call, config_dict_for_object, curry2partial,
+                   extract_decorated_function_from_closure)
 from .minijoblib.hashing import hasher
 
 
@@ -153,7 +154,7 @@ def partial_plugin(v):
     """
     v = curry2partial(v)
     if isinstance(v, partial):
-        name, keywords = callable2call(v)
+        name, keywords = callable2call(v, closure_extractor=extract_decorated_function_from_closure)
         return What(name, keywords).id()
 
 
diff --git a/whatami/what.py b/whatami/what.py
index 3c50d8d..f3381e8 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -340,7 +340,7 @@ def whatareyou(obj,
     mola(n=7)
     """
     try:
-        name, cd = callable2call(obj)
+        name, cd = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
     except (ValueError, TypeError):
         name = obj.__class__.__name__
         cd = config_dict_for_object(obj,
-- 
2.43.0


From 07a1daebab076ac090035c6e6939f809406de880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 42/57] fix: only the wrappers of whatable are looked through
 when describing partials

A whatable closure over other function was taken by a wrapper of that function (and
described as it), a closure over itself failed with RecursionError
---
 whatami/misc.py | 6 ++++--
 whatami/what.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 91fc2f9..30c9778 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -580,12 +580,14 @@ def is_closure(c):
 def extract_decorated_function_from_closure(c):
     """
     Extracts a function (or partial) from closure c iff the closure only have one cell mapping to it
-    and also has a method 'what'.
+    and it is a wrapper made by whatable for it (other whatables can also happen to be closures).
     (this ad-hoc behavior could help to play well with the whatable decorator)
     """
     closure = c.__closure__
     if closure is not None and len(closure) == 1 and hasattr(c, 'what'):
-        func = closure[0].cell_contents
+        func = getattr(c.what, 'decorated', None)
+        if func is not closure[0].cell_contents:
+            return c
         if isinstance(func, partial):
             return func
         if inspect.isfunction(func):
diff --git a/whatami/what.py b/whatami/what.py
index f3381e8..75b147d 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -531,6 +531,8 @@ def whatable(obj=None,
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
+        if whatablefunc is not obj:
+            whatablefunc.what.decorated = obj  # N.B. tells our wrappers from any other whatable closure
 
         return whatablefunc
 
-- 
2.43.0


From 8bdff54725a14e24662182d12d440cab08d0ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:14 +0000
Subject: [PATCH 43/57] fix: excluded and non id keys can come in an iterator

Only the first key (of the first object described) was excluded
---
 whatami/misc.py | 3 ++-
 whatami/what.py | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 30c9778..50b36d3 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -488,10 +488,11 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     -------
     A copy of cd with only the allowed keys.
     """
+    excludes = set(excludes)
     return {k: v for k, v in cd.items() if
             (exclude_prefix and not k.startswith(exclude_prefix)) and
             (exclude_postfix and not k.endswith(exclude_postfix)) and
-            k not in set(excludes)}
+            k not in excludes}
 
 
 def config_dict_for_object(obj,
diff --git a/whatami/what.py b/whatami/what.py
index 75b147d..93cb9c1 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -485,6 +485,11 @@ def whatable(obj=None,
     WhatableWithProps(d=0)
     """
 
+    # N.B. these are used each time something decorated is described, also if they come in an iterator
+    excludes = () if excludes is None else tuple(excludes)
+    if is_iterable(non_id_keys):
+        non_id_keys = tuple(non_id_keys)
+
     # class decorator
     if obj is None:
         return partial(whatable,
-- 
2.43.0


From 0cc722948dceb046c0543c870497031632e32ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 44/57] fix: trim_dict without prefix or postfix to exclude
 does not exclude everything

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 50b36d3..f564538 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -490,8 +490,8 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     """
     excludes = set(excludes)
     return {k: v for k, v in cd.items() if
-            (exclude_prefix and not k.startswith(exclude_prefix)) and
-            (exclude_postfix and not k.endswith(exclude_postfix)) and
+            not (exclude_prefix and k.startswith(exclude_prefix)) and
+            not (exclude_postfix and k.endswith(exclude_postfix)) and
             k not in excludes}
 
 
-- 
2.43.0


From 8caf3abf78bbb7ae24c81393f485fd9d7e3dd9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:33 +0000
Subject: [PATCH 45/57] fix: whatable functions honour non_id_keys

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 93cb9c1..a087ce8 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -530,9 +530,10 @@ def whatable(obj=None,
 
         # Adds what method
         if whatfunc is None:
+            non_id_keys = excludes if non_id_keys is None else excludes + non_id_keys
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
             # N.B. each What gets its own configuration dictionary
-            whatablefunc.what = lambda: What(name=name, conf=dict(config_dict), non_id_keys=excludes)
+            whatablefunc.what = lambda: What(name=name, conf=dict(config_dict), non_id_keys=non_id_keys)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From 0556be71b78d562fa0479b42933dfa5a2727e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 46/57] fix: old style ids with empty dictionaries can be
 migrated

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 1519a2a..45d9798 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -388,7 +388,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
         return StrMatch('set()')
 
     def a_non_empty_set():
-        return StrMatch('{'), Optional(list_elements), StrMatch('}')
+        return StrMatch('{'), list_elements, StrMatch('}')
 
     def a_set():
         return [an_empty_set, a_non_empty_set]
-- 
2.43.0


From e7172e382017a2fc05d53a7685e00c356dddd3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 47/57] fix: the mask is part of the hash of masked arrays

---
 whatami/minijoblib/hashing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index eb5a348..4e60e53 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -208,7 +208,12 @@ class NumpyHasher(Hasher):
             than pickling them. Off course, this is a total abuse of
             the Pickler class.
         """
-        if isinstance(obj, self.np.ndarray) and not obj.dtype.hasobject:
+        if isinstance(obj, self.np.ma.MaskedArray) and not obj.dtype.hasobject \
+                and obj.mask is not self.np.ma.nomask:
+            # The mask is also part of the array, and these cannot be viewed
+            # as bytes with it.
+            obj = (obj.__class__, ('MASKED', obj.data, obj.mask))
+        elif isinstance(obj, self.np.ndarray) and not obj.dtype.hasobject:
             # Compute a hash of the object
             # The update function of the hash requires a c_contiguous buffer.
             if obj.shape == ():
-- 
2.43.0


From 0a5b70bae2dacf90c657e857a8513ca176863b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 48/57] fix: reading pandas objects does not change their hash

---
 whatami/minijoblib/hashing.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 4e60e53..7ff4ef9 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -117,6 +117,15 @@ class Hasher(Pickler):
             return
         Pickler.memoize(self, obj)
 
+    def save_reduce(self, func, args, state=None, *rest, **kwargs):
+        # pandas caches properties in its objects when they are read, these
+        # are not part of their value
+        if isinstance(state, dict) and '_cache' in state and any(
+                cls.__module__.split('.')[0] == 'pandas'
+                for cls in type(kwargs.get('obj')).__mro__):
+            state = {k: v for k, v in state.items() if k != '_cache'}
+        Pickler.save_reduce(self, func, args, state, *rest, **kwargs)
+
     # The dispatch table of the pickler is not accessible in Python
     # 3, as these lines are only bugware for IPython, we skip them.
     def save_global(self, obj, name=None, pack=struct.pack):
-- 
2.43.0


From 56596762a1e894684ad18e2f35e1e07f2dfb6dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 49/57] fix: the hash of a data frame does not depend on
 whether pandas has consolidated it

---
 whatami/plugins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index e886564..8173452 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -245,7 +245,12 @@ def pandas_plugin(v):
     """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
     if has_pandas() and hasher is not None:
         if isinstance(v, (pd.DataFrame, pd.Series)):
-            return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
+            name = v.__class__.__name__
+            if isinstance(v, pd.DataFrame):
+                # pandas can join the columns of the same type at any time, even when only reading; the hash cannot
+                # depend on whether that has already happened
+                v = v._consolidate()
+            return "%s(hash='%s')" % (name, hasher(v))
     #
     # Given the variability of pandas key classes and the stability of numpy
     # ABI it should repay to create an spesialised pandas plugin that just
-- 
2.43.0


From 85032514a8a8d5b2040715363ebcb56219f3399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 50/57] fix: different pandas indices and arrays do not have
 the same id

---
 whatami/plugins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 8173452..a594d82 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -242,9 +242,10 @@ def rng_plugin(v):
 
 
 def pandas_plugin(v):
-    """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
+    """Represents pandas objects (frames, series, indices and arrays) as, for example, "DataFrame(hash='xxx')"."""
     if has_pandas() and hasher is not None:
-        if isinstance(v, (pd.DataFrame, pd.Series)):
+        # N.B. the text of long indices and arrays does not have all their elements
+        if isinstance(v, (pd.DataFrame, pd.Series, pd.Index, pd.api.extensions.ExtensionArray)):
             name = v.__class__.__name__
             if isinstance(v, pd.DataFrame):
                 # pandas can join the columns of the same type at any time, even when only reading; the hash cannot
-- 
2.43.0


From f3747cb1f324c0cec86e663ce1a5dc6a78c53060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 51/57] fix: reading a pandas object while other thread hashes
 it does not change the hash

---
 whatami/minijoblib/hashing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 7ff4ef9..da14899 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -118,9 +118,9 @@ class Hasher(Pickler):
         Pickler.memoize(self, obj)
 
     def save_reduce(self, func, args, state=None, *rest, **kwargs):
-        # pandas caches properties in its objects when they are read, these
-        # are not part of their value
-        if isinstance(state, dict) and '_cache' in state and any(
+        # pandas caches properties in its objects when they are read (perhaps
+        # from other threads while hashing), these are not part of their value
+        if isinstance(state, dict) and any(
                 cls.__module__.split('.')[0] == 'pandas'
                 for cls in type(kwargs.get('obj')).__mro__):
             state = {k: v for k, v in state.items() if k != '_cache'}
-- 
2.43.0


From 6d7d033c722339fbe86fb8dddf7de6e399e5a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 52/57] fix: configurations with dictionaries whose keys cannot
 be compared can be flattened

---
 whatami/what.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index a087ce8..6c44b02 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -175,7 +175,11 @@ class What(object):
             elif isinstance(what, (list, tuple)) and collections_too:
                 kvs = enumerate(what)
             elif isinstance(what, dict) and collections_too:
-                kvs = sorted(what.items())
+                try:
+                    kvs = sorted(what.items())
+                except TypeError:  # keys that cannot be compared (e.g. numbers and strings), sort like in the id
+                    from whatami.plugins import WhatamiPluginManager
+                    kvs = sorted(what.items(), key=lambda kv: WhatamiPluginManager.build_string(kv[0]))
             else:
                 kvs = ()
             for k, v in kvs:
-- 
2.43.0


From 0ce016f73d68e90440536707f4019aa62652fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 53/57] fix: looking up a key of a whatable class raises
 KeyError, as there is no configuration in it

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 6c44b02..ed1d242 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -229,7 +229,7 @@ class What(object):
                     try:
                         w = w[key]
                     except TypeError:
-                        if not hasattr(w, 'what'):
+                        if inspect.isclass(w) or not hasattr(w, 'what'):
                             raise KeyError(item)
                         w = w.what()[key]
                     except IndexError:
-- 
2.43.0


From 67ff2400de471b0f8357bc7da6a03a393d0fe1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:10 +0000
Subject: [PATCH 54/57] fix: the data frame of a recorder does not mix what
 other threads are adding

---
 whatami/registry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 9273e64..a748403 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -715,5 +715,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
         Returns a pandas dataframe with records in rows and as many columns as different attributes.
         It is sorted by insertion order.
         """
+        with _CHANGES_LOCK:
+            records = self._registry.copy()  # other threads can be adding more
         # N.B. from_dict leaves out the records without columns
-        return pd.DataFrame.from_dict(self._registry, orient='index').reindex(list(self._registry))
+        return pd.DataFrame.from_dict(records, orient='index').reindex(list(records))
-- 
2.43.0


From 6ae5c47a2e9991cb601a7e15d4e30839ec894b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:10 +0000
Subject: [PATCH 55/57] fix: changes of the settings of a recorder from several
 threads are not lost nor seen half made

---
 whatami/registry.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index a748403..79f50d4 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -543,13 +543,15 @@ class Recorder(with_metaclass(_RecorderMeta)):
 
     def add_column_defaults(self, **columns_defaults):
         """Adds or updates column defaults."""
-        self._column_defaults.update(columns_defaults)
+        with _CHANGES_LOCK:
+            # N.B. other threads can be using the current dictionary
+            self._column_defaults = dict(self._column_defaults, **columns_defaults)
 
     def remove_column_defaults(self, *columns):
         """Removes the default value for the specified columns."""
-        for column in columns:
-            if column in self._column_defaults:
-                del self._column_defaults[column]
+        with _CHANGES_LOCK:
+            self._column_defaults = {column: default for column, default in self._column_defaults.items()
+                                     if column not in columns}
 
     # --- Record postprocessors
 
@@ -559,11 +561,13 @@ class Recorder(with_metaclass(_RecorderMeta)):
 
     def add_record_postprocessors(self, *postprocessors):
         """Adds record postprocessors at the end of the chain."""
-        self._record_postprocessors += postprocessors
+        with _CHANGES_LOCK:
+            self._record_postprocessors = list(self._record_postprocessors) + list(postprocessors)
 
     def override_record_postprocessors(self, *postprocessors):
         """Override the current record postprocessors."""
-        self._record_postprocessors = postprocessors
+        with _CHANGES_LOCK:
+            self._record_postprocessors = postprocessors
 
     # --- Adding records machinery
 
-- 
2.43.0


From fa52ad9bf9cc7efd785da060fef0bc705d9f5226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:02 +0000
Subject: [PATCH 56/57] fix: the dictionary of an id has no configurations
 nested in its collections

id2dict and What.to_dict left What objects inside lists, tuples and dictionaries,
so what they returned could not be stored as json, yaml and the like.
---
 whatami/whatutils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 6fac046..9afaf4e 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -96,11 +96,19 @@ def id2dict(whatid):
     whatid : string
       a whatami id string
     """
+    def whats2dicts(v):
+        if isinstance(v, What):
+            return v.to_dict()
+        if isinstance(v, (list, tuple)):
+            return type(v)(map(whats2dicts, v))
+        if isinstance(v, dict):
+            return {k: whats2dicts(v) for k, v in v.items()}
+        return v
+
     what = id2what(whatid)
     return {'whatami_name': what.name,
             'whatami_out_name': what.out_name,
-            'whatami_conf': {k: (v if not isinstance(v, What) else v.to_dict())
-                             for k, v in what.conf.items()}}
+            'whatami_conf': whats2dicts(what.conf)}
 
 
 def obj2what(obj,
-- 
2.43.0


From 9d1bb666c4b13b8aaadcb64d6408f7a38b101e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:59 +0000
Subject: [PATCH 57/57] fix: objects with slots that have no value can be
 described

---
 whatami/misc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index f564538..93b0360 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -408,8 +408,14 @@ def _slotsdict(obj):
     {'prop': 3}
     """
     descriptors = inspect.getmembers(obj.__class__, inspect.isdatadescriptor)
-    return {dname: value.__get__(obj) for dname, value in descriptors if
-            '__weakref__' != dname if inspect.ismemberdescriptor(value)}
+    slots = {}
+    for dname, value in descriptors:
+        if '__weakref__' != dname and inspect.ismemberdescriptor(value):
+            try:
+                slots[dname] = value.__get__(obj)
+            except AttributeError:
+                pass  # N.B. the slot has no value, so the object does not have such an attribute
+    return slots
 
 
 def _propsdict(obj):
-- 
2.43.0

