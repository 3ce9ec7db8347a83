From c3147e98ad297ea3afbc82478cd54c7b893b6ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 01/62] fix: don't raise on a continuation or function start at
 the end of a file

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1f47ade..05b9297 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -113,13 +113,13 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         res = buffer
         next_ = ''
         if RegexRpl.search(__next_line_regex__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             while RegexRpl.search(__next_line_regex__, line):
                 res += line
-                _, line = _iter.__next__()
+                _, line = next(_iter, (0, ''))
             res += line
         elif RegexRpl.match(__func_start_regexp__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
             while not stopiter:
-- 
2.43.0


From 9840ac16403c17bc8cac72483d2c6f33b75cc50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 02/62] fix: a comment or value containing 'name() {' doesn't
 start a function block

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 05b9297..3d26956 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -60,7 +60,7 @@ __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
-    r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
+    r"^\s*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
 
-- 
2.43.0


From ddd9ec08f60a193a0a0e17ce8c8972bb4ff7ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:03 +0000
Subject: [PATCH 03/62] fix: functions named python* or fakeroot* keep their
 name

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 3d26956..4904302 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -31,7 +31,7 @@ INLINE_BLOCK = "!!!inlineblock!!!"
 __regex_var = regex.compile(
     r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
-    r"^((?P<py>python)\s*|(?P<fr>fakeroot\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
+    r"^((?P<py>python(?=[\s(]))\s*|(?P<fr>fakeroot(?=\s))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
     r"^(\s|\t)*(?P<statement>inherit(_defer)*)(\s+|\t+)(?P<inhname>.+)")
 __regex_inherit_glob = regex.compile(
-- 
2.43.0


From 8d8bd26b1cd907dc63d712c3907f788ab18c9a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 04/62] fix: function body starts at the brace after the
 parentheses and ends at the last one

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 5c9248e..56cf374 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -630,7 +630,7 @@ class Function(Item):
             self.OverrideDelimiter) if x]
         self.__FuncBody = body
         self.__FuncBodyRaw = textwrap.dedent(
-            self.Raw[self.Raw.find("{") + 1:].rstrip().rstrip("}"))
+            self.Raw[self.Raw.find("{", self.Raw.find("(")) + 1:].rstrip().removesuffix("}"))
 
     @property
     def IsPython(self) -> bool:
-- 
2.43.0


From 373ac279c58d725763b4497cc91a495fbbc24169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 05/62] fix: unset reports the complete variable name

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 4904302..4cbdd62 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -55,7 +55,7 @@ __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
-    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>.+?)(\[*(?P<flag>.+)\])*")
+    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])?")
 __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
-- 
2.43.0


From 43552e78e1034ed084caad551dd305aae8a156cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 06/62] fix: accept '+' in variable names, flags and include
 names

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 4cbdd62..f679af6 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -29,7 +29,7 @@ from oelint_parser.constants import CONSTANTS
 INLINE_BLOCK = "!!!inlineblock!!!"
 
 __regex_var = regex.compile(
-    r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(?P<varname>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
     r"^((?P<py>python(?=[\s(]))\s*|(?P<fr>fakeroot(?=\s))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
@@ -44,13 +44,13 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9+\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
-- 
2.43.0


From 9fbafdf3fd3d0e3f039230043f5833bc3d822d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:50 +0000
Subject: [PATCH 07/62] fix: recognize python functions with upper-case names
 and return annotations

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index f679af6..c4c12ef 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -42,7 +42,7 @@ __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
-    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
+    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)(\s*->[^:]*)?\s*\:")
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9+\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
@@ -62,7 +62,7 @@ __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"^\s*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
-__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
+__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#_$]+")
 
 
 def get_full_scope(_string: str, offset: int, _sstart: int, _send: int) -> str:
-- 
2.43.0


From 8cb79aacd607a9f367f6ae4e9570ca16385d9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:33 +0000
Subject: [PATCH 08/62] fix: export reports the bare variable name for every
 operator and quote

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index c4c12ef..fcd535d 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -37,7 +37,7 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>.+)\s*=\s*\"(?P<value>.*)\"")
+    r"^\s*?export(\s+|\t+)(?P<name>[^=]+?)\s*[\+\?\:\.]*=[\+\.]*\s*(?P<quote>\"|')(?P<value>.*)(?P=quote)")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
-- 
2.43.0


From 48ad0b1f73a9d3e478cf8b2ebd8ec3c0869dd34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 09/62] fix: task names containing 'before' or 'after' don't
 split an addtask list

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index fcd535d..fe912ce 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9+\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\b\s*(?P<before>(([^#\n]*(?<!\S)(?=after\b))|([^#\n]*))))|(after\b\s*(?P<after>(([^#\n]*(?<!\S)(?=before\b))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From ba116d8bf96e9292e464c1c0c6a869ffec8ff360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:55 +0000
Subject: [PATCH 10/62] fix: split task and function name lists at any
 whitespace

---
 oelint_parser/cls_item.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 56cf374..d713d07 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -906,7 +906,7 @@ class FunctionExports(Item):
         Returns:
             list -- function names
         """
-        return [x for x in self.__FuncNames.split(" ") if x]
+        return self.safe_linesplit(self.__FuncNames)
 
     def get_items_unaliased(self) -> List[str]:
         """Get items with their bbclass scope names
@@ -945,8 +945,8 @@ class TaskAdd(Item):
         """
         super().__init__(*args, **kwargs)
         self.__FuncName = name
-        self.__Before = [x for x in (before or "").split(" ") if x]
-        self.__After = [x for x in (after or "").split(" ") if x]
+        self.__Before = self.safe_linesplit(before or "")
+        self.__After = self.safe_linesplit(after or "")
         self.__Comment = comment or ''
 
     @property
-- 
2.43.0


From 11e689ca11f07a8507b7c757f70937415035c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:07 +0000
Subject: [PATCH 11/62] fix: FunctionExports.ATTR_FUNCNAME names the existing
 attribute

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index d713d07..7105c25 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -877,7 +877,7 @@ class FlagAssignment(Item):
 class FunctionExports(Item):
     """Items representing EXPORT_FUNCTIONS in bitbake."""
 
-    ATTR_FUNCNAME = "FuncName"
+    ATTR_FUNCNAME = "FuncNames"
     CLASSIFIER = "FunctionExports"
 
     def __init__(self,
-- 
2.43.0


From 5e75fda9e5499ce4e78a1c29370d261a15089dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 12/62] fix: ignore and resolve inherited classes one by one

---
 oelint_parser/parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index fe912ce..87247c2 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -330,7 +330,9 @@ def get_items(stash: object,
                 elif k == "inherit":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
+                        if inh_item.removesuffix(".bbclass") in CONSTANTS.ClassIgnore:
+                            continue
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -341,8 +343,6 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
-                                continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
                                 _path, lineOffset=line["line"], forcedLink=_file)
@@ -357,7 +357,9 @@ def get_items(stash: object,
                 elif k == "inherit_glob":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
+                        if inh_item.removesuffix(".bbclass") in CONSTANTS.ClassIgnore:
+                            continue
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -368,8 +370,6 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
-                                continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
                                 _path, lineOffset=line["line"], forcedLink=_file)
-- 
2.43.0


From 1e6d98a747ea12acc2c5cf2fcb2af1295f845d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 13/62] fix: treat class-nativesdk of functions like the other
 class overrides

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 7105c25..90ac2e4 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -218,7 +218,7 @@ class Item():
         chunks = name.split(self.__OverrideDelimiter)
         if name in ['__anonymous']:
             return (name, '')
-        _marker = ["append", "prepend", "class-native",
+        _marker = ["append", "prepend", "class-native", "class-nativesdk",
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
@@ -734,7 +734,7 @@ class Function(Item):
             str -- machine specific modifier or ""
         """
         for x in self.SubItems:
-            if x not in ["append", "prepend", "class-native", "class-cross", "class-target", "remove", "machine"]:
+            if x not in ["append", "prepend", "class-native", "class-nativesdk", "class-cross", "class-target", "remove", "machine"]:
                 return x
         return ""
 
-- 
2.43.0


From b09201f9d0e2448996e9c7bbbb74f1599c49c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 14/62] fix: IsMultiLine looks at the written assignment, not
 at hex escapes

---
 oelint_parser/cls_item.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 90ac2e4..2f329b1 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -9,6 +9,7 @@ from oelint_parser.rpl_regex import RegexRpl
 
 __safeline_split_regex__ = regex.compile(r"\s|\t|\x1b(?!x)")
 __id_regex__ = regex.compile(r"[a-z0-9{}$]+")  # noqa: P103
+__multiline_regex__ = regex.compile(r"\\\s*\n")
 __versioned_regex__ = regex.compile(r"\s*\(.*?\)")
 
 
@@ -423,7 +424,7 @@ class Variable(Item):
         Returns:
             bool -- True if multiline
         """
-        return "\\x1b" in self.Raw or "\\\n" in self.Raw
+        return bool(RegexRpl.search(__multiline_regex__, self.RealRaw))
 
     def GetDistroEntry(self) -> str:
         """Get distro specific entries in variable
-- 
2.43.0


From 8c0740262216fcb45b80d2e656a348de3537b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 15/62] fix: trailing blanks after a value don't leave a quote
 in its items

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 2f329b1..c301401 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -413,7 +413,7 @@ class Variable(Item):
         Returns:
             list -- clean list of items in variable value
         """
-        _x = override.strip('"') or self.VarValue.strip('"')
+        _x = override.strip('"') or self.VarValue.strip().strip('"')
         if versioned:
             _x = RegexRpl.sub(__versioned_regex__, "", _x)
         return self._safe_linesplit(_x)
-- 
2.43.0


From 750ab0d00178cd8fe46cd85299b408ff83366f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:25 +0000
Subject: [PATCH 16/62] fix: RegexRpl.match honours its flags

---
 oelint_parser/parser.py    | 2 +-
 oelint_parser/rpl_regex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 87247c2..17c3f56 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -289,7 +289,7 @@ def get_items(stash: object,
             'realraw': line['realraw'],
         }
         for k, v in _order.items():
-            m = RegexRpl.match(v, line["cnt"], regex.regex.MULTILINE)
+            m = RegexRpl.match(v, line["cnt"])
             if m:
                 if k == "python":
                     parameter['name'] = m.group("funcname")
diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index d633e80..0308457 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -61,7 +61,7 @@ class RegexRpl():
             Match: Match object or None
         """
         try:
-            return regex.match(pattern, string, timeout=timeout, **kwargs)
+            return regex.match(pattern, string, flags=flags, timeout=timeout, **kwargs)
         except TimeoutError:
             return default
 
-- 
2.43.0


From b9f65096a1e26ec8f8045905080ca495f076d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 17/62] fix: absorb a timeout while iterating over the matches
 of finditer

---
 oelint_parser/rpl_regex.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index 0308457..e823ea0 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -1,6 +1,6 @@
-from typing import List, Union
+from typing import Iterable, List, Union
 
-from regex import Match, Scanner, regex
+from regex import Match, regex
 
 
 class RegexRpl():
@@ -87,7 +87,7 @@ class RegexRpl():
             return default
 
     @staticmethod
-    def finditer(pattern: str, string: str, flags: int = 0, timeout: int = 5, default: object = None, **kwargs) -> Scanner:
+    def finditer(pattern: str, string: str, flags: int = 0, timeout: int = 5, default: object = None, **kwargs) -> Iterable[Match]:
         """replacement for re.finditer
 
         Args:
@@ -98,9 +98,10 @@ class RegexRpl():
             default (_type_, optional): Default to return on timeout. Defaults to None.
 
         Returns:
-            Scanner: Scanner object or None
+            Iterable[Match]: matches or `default` (if set)
         """
         try:
-            return regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)
+            # the matching is done while iterating, so do that here to catch a timeout
+            return iter(list(regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)))
         except TimeoutError:
-            return default
+            return default or []
-- 
2.43.0


From ad7040b4f7d7bf7997df649602f510ce8af86147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 18/62] fix: restore exactly the unresolved inline blocks, each
 in its place

---
 oelint_parser/cls_stash.py | 6 ++++--
 oelint_parser/parser.py    | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 19c734c..6d7e8dd 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -725,8 +725,10 @@ class Stash():
 
     def _ReverseInlineBlock(self, varref: Variable) -> str:
         res = varref.VarValueStripped
-        for item in varref.InlineBlocks:
-            res = res.replace(*reversed(item), 1)
+        for block, repl in varref.InlineBlocks:
+            # resolved blocks stay replaced
+            if repl == INLINE_BLOCK:
+                res = res.replace(repl, block, 1)
         return res
 
     def ExpandTerm(self, _file: str, value: str, spare: List[str] = None, seen: List[str] = None, objref: Variable = None) -> str:
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 17c3f56..a154ec3 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -178,7 +178,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         _repl = inlinerep(repl, negative)
         if _repl is None:
             _repl = INLINE_BLOCK
-        raw_line = raw_line.replace(repl, _repl)
+        raw_line = raw_line.replace(repl, _repl, 1)
         inline_blocks.append((repl, _repl))
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
-- 
2.43.0


From 88224e11a9b464c03d79d74ddd60d90a7367cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:30 +0000
Subject: [PATCH 19/62] fix: commas and brackets in quoted inline arguments
 don't end the argument

---
 oelint_parser/inlinerep.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 92ed7ed..24412c8 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -2,28 +2,31 @@ import regex
 
 from oelint_parser.rpl_regex import RegexRpl
 
+# an argument of a call, where a quoted string can contain any character
+__arg = r"(?:'[^']*'|\"[^\"]*\"|[^'\"])*?"
+
 __bb_utils_filter_regex__ = regex.compile(
-    r'(.*)bb\.utils\.filter\(\s*(?P<trueval>.*?),.*?,.*?\)')
+    rf"(.*)bb\.utils\.filter\(\s*(?P<trueval>{__arg})\s*,{__arg},.*?\)")
 __bb_utils_contains_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    rf"(.*)bb\.utils\.contains\({__arg},{__arg},\s*(?P<trueval>{__arg})\s*,\s*(?P<falseval>{__arg})\s*,\s*.\s*\)")
 __bb_utils_contains_any_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains_any\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    rf"(.*)bb\.utils\.contains_any\({__arg},{__arg},\s*(?P<trueval>{__arg})\s*,\s*(?P<falseval>{__arg})\s*,\s*.\s*\)")
 __oe_utils_conditional_regex__ = regex.compile(
-    r"(.*)oe\.utils\.conditional\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.*?\)")
+    rf"(.*)oe\.utils\.conditional\({__arg},{__arg},\s*(?P<trueval>{__arg})\s*,\s*(?P<falseval>{__arg})\s*,.*?\)")
 __oe_utils_ifelse_regex__ = regex.compile(
-    r"(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?)\)")
+    rf"(.*)oe\.utils\.ifelse\({__arg},\s*(?P<trueval>{__arg})\s*,\s*(?P<falseval>{__arg})\s*\)")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    rf"(.*)oe\.utils\.any_distro_features\({__arg},\s*(?P<feature>{__arg})\s*(,\s*(?P<trueval>{__arg})\s*(,\s*(?P<falseval>{__arg})\s*)*)*\)")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    rf"(.*)oe\.utils\.all_distro_features\({__arg},\s*(?P<feature>{__arg})\s*(,\s*(?P<trueval>{__arg})\s*(,\s*(?P<falseval>{__arg})\s*)*)*\)")
 __oe_utils_vartrue_regex__ = regex.compile(
-    r"(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.vartrue\({__arg},\s*(?P<trueval>{__arg})\s*,\s*(?P<falseval>{__arg})\s*,.*?\)")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.less_or_equal\({__arg},{__arg},\s*(?P<trueval>{__arg})\s*,\s*(?P<falseval>{__arg})\s*,.*?\)")
 __oe_utils_version_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.version_less_or_equal\({__arg},{__arg},\s*(?P<trueval>{__arg})\s*,\s*(?P<falseval>{__arg})\s*,.*?\)")
 __oe_utils_both_contain_regex__ = regex.compile(
-    r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.both_contain\({__arg},{__arg},\s*(?P<trueval>{__arg})\s*,.*?\)")
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
 
 
-- 
2.43.0


From 92cad2904c752ae81852d55dfd8a41efc3b4400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 20/62] fix: an expand argument of d.getVar isn't part of the
 variable name

---
 oelint_parser/inlinerep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 24412c8..0e95e72 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -27,7 +27,7 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
     rf"(.*)oe\.utils\.version_less_or_equal\({__arg},{__arg},\s*(?P<trueval>{__arg})\s*,\s*(?P<falseval>{__arg})\s*,.*?\)")
 __oe_utils_both_contain_regex__ = regex.compile(
     rf"(.*)oe\.utils\.both_contain\({__arg},{__arg},\s*(?P<trueval>{__arg})\s*,.*?\)")
-__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
+__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,.*?)?\)')
 
 
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
-- 
2.43.0


From e7b0ae1fe6c743fd710a5cd5faafff9b621116b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:17 +0000
Subject: [PATCH 21/62] fix: constant edits don't alias caller data and can
 remove dictionary keys

---
 oelint_parser/constants.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 5b1abdb..c6b4a56 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import os
 import sys
@@ -16,7 +17,7 @@ class Constants():
         Args:
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
-        self.__db = file_ if isinstance(file_, dict) else self.__load_db(file_)
+        self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -38,7 +39,7 @@ class Constants():
         paths = path.rstrip('/').split('/')
         data = self.__db
         for _, value in enumerate(paths):
-            data = data.get(value, {})
+            data = data.get(value, {}) if isinstance(data, dict) else {}
         return data
 
     def AddConstants(self, _dict: dict) -> None:
@@ -50,11 +51,11 @@ class Constants():
         def dict_merge(a: dict, b: dict) -> dict:
             for k, v in b.items():
                 if k not in a:
-                    a[k] = v
+                    a[k] = copy.deepcopy(v)
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
                 else:
-                    a[k] += v
+                    a[k] = a[k] + v
             return a
         self.__db = dict_merge(self.__db, _dict)
 
@@ -70,6 +71,10 @@ class Constants():
                     pass
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
+                elif isinstance(a[k], dict):
+                    a[k] = {x: y for x, y in a[k].items() if x not in v}
+                elif isinstance(a[k], str):
+                    del a[k]
                 else:
                     a[k] = [x for x in a[k] if x not in v]
             return a
@@ -83,12 +88,10 @@ class Constants():
         """
         def dict_merge(a: dict, b: dict) -> dict:
             for k, v in b.items():
-                if k not in a:
-                    a[k] = v
-                elif isinstance(b[k], dict):
-                    dict_merge(a[k], b[k])
+                if isinstance(a.get(k), dict) and isinstance(v, dict):
+                    dict_merge(a[k], v)
                 else:
-                    a[k] = v
+                    a[k] = copy.deepcopy(v)
             return a
         self.__db = dict_merge(self.__db, _dict)
 
-- 
2.43.0


From eadb5e559faacca86b2bb0b0ba592d7ba99d10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 22/62] fix: keep '=' in the value of a SRC_URI option

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 6d7e8dd..28292a9 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -664,7 +664,7 @@ class Stash():
             _tmp += "/" + _url.path.lstrip("/")
         _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
-        _parsed_opt = {x.split("=")[0]: x.split("=")[1]
+        _parsed_opt = {x.split("=", 1)[0]: x.split("=", 1)[1]
                        for x in _options if "=" in x}
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
-- 
2.43.0


From b1720fca3c91f522280c9166015f0eb7d3f13c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 23/62] fix: only resolve includes to files and consider a
 layer root as part of its layer

---
 oelint_parser/cls_stash.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 28292a9..9f50116 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -603,11 +603,11 @@ class Stash():
         """
         _curdir = os.path.dirname(name) if os.path.isfile(name) else name
         while os.path.isdir(_curdir):
+            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
+                return _curdir
             if _curdir == "/":
                 break
             _curdir = os.path.dirname(_curdir)
-            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                return _curdir
         return ""
 
     @functools.cache  # noqa: B019
@@ -621,18 +621,11 @@ class Stash():
         Returns:
             str -- path to found file or None
         """
-        if os.path.exists(os.path.join(localdir, name)):
+        if os.path.isfile(os.path.join(localdir, name)):
             return os.path.join(localdir, name)
-        _curdir = localdir
-        while os.path.isdir(_curdir):
-            if _curdir == "/":
-                break
-            _curdir = os.path.dirname(_curdir)
-            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                if os.path.exists(os.path.join(_curdir, name)):
-                    return os.path.join(_curdir, name)
-                else:
-                    break
+        _root = self.GetLayerRoot(localdir)
+        if _root and os.path.isfile(os.path.join(_root, name)):
+            return os.path.join(_root, name)
         return ""
 
     def _replace_with_known_mirrors(self, _in: dict) -> dict:
-- 
2.43.0


From 28c83b985a68ab79becd9809743654f9a8635256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:12 +0000
Subject: [PATCH 24/62] fix: spared names stay unexpanded at every depth,
 unreadable files don't raise in an expansion

---
 oelint_parser/cls_stash.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9f50116..2051eb5 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -758,7 +758,7 @@ class Stash():
                         cnt = self._ReverseInlineBlock(_comp[0])
                     else:
                         cnt = _comp[0].VarValueStripped
-                    _rpl = self.ExpandTerm(_file, cnt, seen=seen)
+                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
             elif m.group(1) in baseset:
@@ -767,7 +767,7 @@ class Stash():
                 elif m.group(1) in baseset:
                     seen[m.group(1)] = ""
                     _rpl = self.ExpandTerm(
-                        _file, baseset[m.group(1)], seen=seen)
+                        _file, baseset[m.group(1)], spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 else:
                     _rpl = m.group(1)
@@ -793,9 +793,11 @@ class Stash():
             try:
                 _fullpath = self.ExpandTerm(_file, m.group(
                     "file"), spare=spare, seen=seen).strip("'\"")
-                with open(_fullpath) as i:
-                    res = i.read()
-            except (FileNotFoundError, PermissionError, NotADirectoryError):
+                res = ''
+                if os.path.isfile(_fullpath):
+                    with open(_fullpath) as i:
+                        res = i.read()
+            except (OSError, ValueError):
                 res = ''
         return res
 
-- 
2.43.0


From b1520c856aa04be5e492b34f61c742807849f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 25/62] fix: result lists support extending, slicing, copying
 and concatenation

---
 oelint_parser/cls_stash.py | 46 +++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 2051eb5..2c5a291 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -39,13 +39,38 @@ class Stash():
             """
             self._stash = stash
             super().__init__()
-            self.data = items
+            self.data = list(items)
 
         def __setitem__(self, index: int, item: Item) -> None:
             self.data[index] = item
 
-        def __iadd__(self, __value: Iterable) -> List[Item]:
-            return self.data.__iadd__(__value)
+        def __iadd__(self, __value: Iterable) -> 'Stash.StashList':
+            self.data += list(__value)
+            return self
+
+        def __getitem__(self, index: Union[int, slice]) -> Union[Item, 'Stash.StashList']:
+            if isinstance(index, slice):
+                return Stash.StashList(self._stash, self.data[index])
+            return self.data[index]
+
+        def __add__(self, other: Iterable) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, self.data + list(other))
+
+        def __radd__(self, other: Iterable) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, list(other) + self.data)
+
+        def __mul__(self, n: int) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, self.data * n)
+
+        __rmul__ = __mul__
+
+        def copy(self) -> 'Stash.StashList':
+            """Copy of the list
+
+            Returns:
+                Stash.StashList: list with the same items
+            """
+            return Stash.StashList(self._stash, self.data[:])
 
         def insert(self, index: int, item: Item) -> None:
             """Insert into list
@@ -62,20 +87,19 @@ class Stash():
             Args:
                 item (Union[Item, Iterable[Item]]): Item or Iterable of Items
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.append(_item)
             else:
                 self.data.append(item)
 
-        def extend(self, other: 'Stash.StashList') -> None:
+        def extend(self, other: Iterable[Item]) -> None:
             """Extend list
 
             Args:
-                other (Stash.StashList): Other stash other
+                other (Iterable[Item]): Items to add
             """
-            if isinstance(other, type(Stash.StashList)):
-                self.data.extend(other.data)
+            self.data.extend(list(other))
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
@@ -83,8 +107,8 @@ class Stash():
             Args:
                 item (Item): Item(s) to remove
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.remove(_item)
             else:
                 self.data.remove(item)
-- 
2.43.0


From d65d96a6810c95d701ffe7b540298757a844ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 26/62] fix: clear every cached query when the stash changes

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 2c5a291..e8ad289 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -164,13 +164,16 @@ class Stash():
 
     def _clear_cached(self):
         """Clear cached values"""
+        self.GetBBClasses.cache_clear()
         self.GetConfFiles.cache_clear()
         self.GetFiles.cache_clear()
         self.GetLinksForFile.cache_clear()
         self.GetLoneAppends.cache_clear()
+        self.GetPackagesDynamic.cache_clear()
         self.GetRecipes.cache_clear()
         self.GetValidNamedResources.cache_clear()
         self.GetValidPackageNames.cache_clear()
+        self.IsDynamicPackage.cache_clear()
         self.IsImage.cache_clear()
         self.IsPackageGroup.cache_clear()
         self.__get_items_by_attribute.cache_clear()
-- 
2.43.0


From 74c88565dafce209e52843bcfed699aac3289bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 27/62] fix: results and fingerprints don't depend on the
 iteration order of sets

---
 oelint_parser/cls_item.py  | 3 ++-
 oelint_parser/cls_stash.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index c301401..6c03154 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -259,7 +259,8 @@ class Item():
         return res
 
     def __repr__(self) -> str:
-        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=self.GetAttributes())
+        attr = {k: sorted(v) if isinstance(v, set) else v for k, v in self.GetAttributes().items()}
+        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=attr)
 
 
 class Variable(Item):
diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index e8ad289..b941760 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -358,7 +358,7 @@ class Stash():
         Returns:
             List[str]: List of configuration files
         """
-        return list({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
+        return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
     @functools.cache  # noqa: B019
     def GetBBClasses(self) -> List[str]:
@@ -412,7 +412,7 @@ class Stash():
         """
         if not filename:
             return []
-        return [x.Origin for x in self.__get_items_by_file(frozenset(self.__list), filename) if x.Origin != filename]
+        return sorted({x.Origin for x in self.__get_items_by_file(tuple(self.__list), filename) if x.Origin != filename})
 
     def Reduce(self,
                in_list: Iterable[Item],
@@ -449,7 +449,7 @@ class Stash():
         if attribute:
             in_list = self.__get_items_by_attribute(
                 tuple(in_list), tuple(attribute), tuple(attributeValue))
-        return sorted(set(in_list), key=lambda x: x.Line)
+        return sorted(dict.fromkeys(in_list), key=lambda x: x.Line)
 
     def GetItemsFor(self,
                     filename: str = None,
-- 
2.43.0


From fa59221128f417b8ea2b5abe72145ed194d9e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 28/62] fix: appended and removed items are part of the
 fingerprint

---
 oelint_parser/cls_stash.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index b941760..fc761cf 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -250,11 +250,14 @@ class Stash():
         self._clear_cached()
 
         # update fingerprint
-        for item in res:
-            self.__fingerprint.update(str(item).encode())
+        self.__update_fingerprint('add', res)
 
         return res
 
+    def __update_fingerprint(self, operation: str, items: Iterable[Item]) -> None:
+        for item in items:
+            self.__fingerprint.update(f'{operation}:{item}'.encode())
+
     @property
     def FingerPrint(self) -> str:
         """Get the SHA1 fingerprint of the current Stash
@@ -270,30 +273,34 @@ class Stash():
         Args:
             item (Item): Item(s) to append
         """
-        if isinstance(item, (list, tuple, Stash.StashList)):
-            for _item in item:
-                self.__list.append(_item)
-        else:
-            self.__list.append(item)
+        if not isinstance(item, (list, tuple, Stash.StashList)):
+            item = [item]
+        for _item in item:
+            self.__list.append(_item)
 
         # Reset caches
         self._clear_cached()
 
+        # update fingerprint
+        self.__update_fingerprint('append', item)
+
     def Remove(self, item: Union[Item, Iterable[Item]]) -> None:
         """removes one or more items from the stash
 
         Args:
             item (Item): Item(s) to remove
         """
-        if isinstance(item, (list, tuple, Stash.StashList)):
-            for _item in item:
-                self.__list.remove(_item)
-        else:
-            self.__list.remove(item)
+        if not isinstance(item, (list, tuple, Stash.StashList)):
+            item = [item]
+        for _item in item:
+            self.__list.remove(_item)
 
         # Reset caches
         self._clear_cached()
 
+        # update fingerprint
+        self.__update_fingerprint('remove', item)
+
     def AddDistroMachineFromLayer(self, path: str) -> None:
         """adds machine and distro configuration from the layer of the provided file
 
-- 
2.43.0


From 0e7a7cffcc273d91b2b927bd2b34d61aab159075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 29/62] fix: items only count files that link to them as a file
 they are included from

---
 oelint_parser/cls_stash.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index fc761cf..0b9f386 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -322,13 +322,14 @@ class Stash():
         # cross link all the files
         for k in self.__map.keys():
             for item in self.__map[k][:]:
-                self.__map[k] += self.__map[item]
+                self.__map[k] += self.__map.get(item, [])
             self.__map[k].append(k)
-            self.__map[k] = list(set(self.__map[k]))
+            self.__map[k] = list(dict.fromkeys(self.__map[k]))
+        self._clear_cached()
 
-        for k, v in self.__map.items():
+        for k in self.__map.keys():
             for item in self.GetItemsFor(k):
-                item.IncludedFrom = v
+                item.IncludedFrom = [k]
 
         # Reset caches
         self._clear_cached()
-- 
2.43.0


From cc422958019f80b37309f7a714ff90682ce89927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 30/62] fix: link a file to everything it inherits, also if
 that is known already

---
 oelint_parser/cls_stash.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0b9f386..2d4d2d2 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -196,9 +196,10 @@ class Stash():
         """
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
-        if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
-            return []
-        if _file in self.__seen_classes:
+        if (_file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]) or _file in self.__seen_classes:
+            if forcedLink:
+                self.__map.setdefault(forcedLink, []).append(_file)
+                self._clear_cached()
             return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
-- 
2.43.0


From 7af08e25134e771ab333b9e052f9bac13641b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 31/62] fix: don't follow cyclic includes forever

---
 oelint_parser/cls_stash.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 2d4d2d2..48f04b7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -154,6 +154,7 @@ class Stash():
         self.__list = []
         self.__seen_files = set()
         self.__seen_classes = set()
+        self.__active_files = []
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -196,7 +197,8 @@ class Stash():
         """
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
-        if (_file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]) or _file in self.__seen_classes:
+        if (_file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]) or _file in self.__seen_classes \
+                or _file in self.__active_files:
             if forcedLink:
                 self.__map.setdefault(forcedLink, []).append(_file)
                 self._clear_cached()
@@ -206,11 +208,16 @@ class Stash():
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
-        res = get_items(self,
-                        _file,
-                        lineOffset=lineOffset,
-                        new_style_override_syntax=self.__new_style_override_syntax,
-                        negative=self.__negative_inline)
+        # files being parsed right now, to not follow cyclic includes forever
+        self.__active_files.append(_file)
+        try:
+            res = get_items(self,
+                            _file,
+                            lineOffset=lineOffset,
+                            new_style_override_syntax=self.__new_style_override_syntax,
+                            negative=self.__negative_inline)
+        finally:
+            self.__active_files.pop()
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
-- 
2.43.0


From be948b0366fc2f00773132c07861de87c6042aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 32/62] fix: a bbappend applies to the recipes its complete,
 literal name selects

---
 oelint_parser/cls_stash.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 48f04b7..1f517d5 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -227,11 +227,9 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            bn_this = os.path.basename(_file).replace(
-                ".bbappend", ".bb$").replace("%", ".*")
             _maxline = 0
             for x in self.__map:
-                if RegexRpl.match(bn_this, os.path.basename(x)):
+                if self.__is_append_for(_file, x):
                     self.__map[x].append(_file)
                     _maxline = max(_maxline, max(
                         (i.Line for i in self.__list if i.Origin == x), default=0))
@@ -239,14 +237,9 @@ class Stash():
                 # pretend that we are adding the file to the end of the original
                 r.Line += _maxline
         elif _file.endswith(".bb"):
-            bn_this = os.path.basename(_file).replace(".bb", "")
             _maxline = max((r.Line for r in res), default=0)
             for item in self.__list:
-                if not item.Origin.endswith(".bbappend"):
-                    continue
-                bn_that = os.path.basename(item.Origin).replace(
-                    ".bbappend", "").replace("%", ".*")
-                if RegexRpl.match(bn_that, bn_this):
+                if self.__is_append_for(item.Origin, _file):
                     self.__map[_file].append(item.Origin)
                     # pretend that we are adding that bbappend to the end of this recipe
                     item.Line = max(item.Line, item.InFileLine + _maxline)
@@ -262,6 +255,13 @@ class Stash():
 
         return res
 
+    def __is_append_for(self, append: str, recipe: str) -> bool:
+        if not append.endswith(".bbappend") or not recipe.endswith(".bb"):
+            return False
+        _name, _ = os.path.splitext(os.path.basename(append))
+        _pattern = ".*".join(regex.escape(x) for x in _name.split("%"))
+        return bool(RegexRpl.match(rf"{_pattern}\.bb$", os.path.basename(recipe)))
+
     def __update_fingerprint(self, operation: str, items: Iterable[Item]) -> None:
         for item in items:
             self.__fingerprint.update(f'{operation}:{item}'.encode())
-- 
2.43.0


From 71656b36cdea262024cd8421765f0222ac3049b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 33/62] fix: included files take up all lines of their nested
 includes

---
 oelint_parser/cls_stash.py | 15 +++++++++++++++
 oelint_parser/parser.py    | 18 ++++++------------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 1f517d5..8f5ea18 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -255,6 +255,21 @@ class Stash():
 
         return res
 
+    def _AddInclude(self, _file: str, line: int, parent: str) -> int:
+        """Adds a file that is included by another one
+
+        Args:
+            _file (str): Full path to file
+            line (int): line of the include statement
+            parent (str): Full path to the including file
+
+        Returns:
+            int: number of lines taken by the file and everything it includes
+        """
+        _known = len(self.__list)
+        self.AddFile(_file, lineOffset=line, forcedLink=parent)
+        return max((x.Line for x in self.__list[_known:]), default=line) - line
+
     def __is_append_for(self, append: str, recipe: str) -> bool:
         if not append.endswith(".bbappend") or not recipe.endswith(".bb"):
             return False
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index a154ec3..db9076d 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -344,10 +344,8 @@ def get_items(stash: object,
                                 break
                         if _path:
                             _found_paths.add(_path)
-                            tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
-                            if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                            includeOffset += stash._AddInclude(
+                                _path, line["line"] + includeOffset, _file)
                     parameter['statement'] = m.group("statement")
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -371,10 +369,8 @@ def get_items(stash: object,
                                 break
                         if _path:
                             _found_paths.add(_path)
-                            tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
-                            if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                            includeOffset += stash._AddInclude(
+                                _path, line["line"] + includeOffset, _file)
                     parameter['statement'] = 'INHERIT'
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -435,10 +431,8 @@ def get_items(stash: object,
                     if _path:
                         if includename in CONSTANTS.IncludeIgnore:
                             continue
-                        tmp = stash.AddFile(
-                            _path, lineOffset=line["line"], forcedLink=_file)
-                        if any(tmp):
-                            includeOffset += max([x.InFileLine for x in tmp])
+                        includeOffset += stash._AddInclude(
+                            _path, line["line"] + includeOffset, _file)
                     parameter['incname'] = m.group("incname")
                     parameter['fileincluded'] = _path or ''
                     parameter['statement'] = m.group("statement")
-- 
2.43.0


From a43f222bc0aa5d7797f8bcefa88a1c2dd28805ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 34/62] fix: bbappends come after everything of the recipes
 they apply to

---
 oelint_parser/cls_stash.py | 42 +++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 8f5ea18..610c295 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -155,6 +155,9 @@ class Stash():
         self.__seen_files = set()
         self.__seen_classes = set()
         self.__active_files = []
+        self.__units = {}
+        self.__recipes_of_append = {}
+        self.__append_offset = {}
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -208,6 +211,7 @@ class Stash():
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
+        _known = len(self.__list)
         # files being parsed right now, to not follow cyclic includes forever
         self.__active_files.append(_file)
         try:
@@ -227,25 +231,22 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            _maxline = 0
+            self.__recipes_of_append.setdefault(_file, [])
             for x in self.__map:
                 if self.__is_append_for(_file, x):
                     self.__map[x].append(_file)
-                    _maxline = max(_maxline, max(
-                        (i.Line for i in self.__list if i.Origin == x), default=0))
-            for r in res:
-                # pretend that we are adding the file to the end of the original
-                r.Line += _maxline
+                    self.__recipes_of_append[_file].append(x)
         elif _file.endswith(".bb"):
-            _maxline = max((r.Line for r in res), default=0)
-            for item in self.__list:
-                if self.__is_append_for(item.Origin, _file):
-                    self.__map[_file].append(item.Origin)
-                    # pretend that we are adding that bbappend to the end of this recipe
-                    item.Line = max(item.Line, item.InFileLine + _maxline)
+            for x in dict.fromkeys([*self.__map, *(i.Origin for i in self.__list)]):
+                if self.__is_append_for(x, _file):
+                    self.__map[_file].append(x)
+                    self.__recipes_of_append.setdefault(x, []).append(_file)
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
+        if _ext in [".bb", ".bbappend"]:
+            self.__units.setdefault(_file, []).extend(self.__list[_known:])
+            self.__arrange_appends()
 
         # Reset caches
         self._clear_cached()
@@ -277,6 +278,23 @@ class Stash():
         _pattern = ".*".join(regex.escape(x) for x in _name.split("%"))
         return bool(RegexRpl.match(rf"{_pattern}\.bb$", os.path.basename(recipe)))
 
+    def __arrange_appends(self) -> None:
+        """Pretend that bbappends (and what they include) are added to the end of the recipes they apply to"""
+        _end = {}
+        for append, _recipes in self.__recipes_of_append.items():
+            items = self.__units.get(append, [])
+            for x in _recipes:
+                if x not in _end:
+                    _end[x] = max((i.Line for i in self.__units.get(x, [])), default=0)
+            _offset = self.__append_offset.setdefault(append, 0)
+            _shift = max((_end[x] for x in _recipes), default=0) - _offset
+            if _shift > 0:
+                for item in items:
+                    item.Line += _shift
+                self.__append_offset[append] += _shift
+            for x in _recipes:
+                _end[x] = max((i.Line for i in items), default=_end[x])
+
     def __update_fingerprint(self, operation: str, items: Iterable[Item]) -> None:
         for item in items:
             self.__fingerprint.update(f'{operation}:{item}'.encode())
-- 
2.43.0


From 8ad1e32dcaeac18c55c543ed7763466764fdfe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 35/62] fix: ExpandVar doesn't apply unset of linked files if
 these are not considered

---
 oelint_parser/cls_stash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 610c295..0bd3f73 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -549,7 +549,8 @@ class Stash():
                                 nolink=nolink)
 
         _res += self.GetItemsFor(filename=filename,
-                                 classifier=Unset.CLASSIFIER)
+                                 classifier=Unset.CLASSIFIER,
+                                 nolink=nolink)
 
         if filename is None:
             if _res:
-- 
2.43.0


From 0ddc494f8a9989f7ebc754f801dd5885af653ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 36/62] fix: ExpandVar applies every operator and override as
 it is evaluated

---
 oelint_parser/cls_stash.py | 63 +++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0bd3f73..8c831fe 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -563,86 +563,85 @@ class Stash():
             "BPN": self.GuessBaseRecipeName(filename),
         }
         _exp = {**_exp, **CONSTANTS.SetsBase}
+        _weak = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 if item.Flag:
                     continue
-                if item.VarName in _exp:
-                    del _exp[item.VarName]
+                _exp.pop(item.VarName, None)
+                _weak.pop(item.VarName, None)
                 continue
             if not item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = item.VarOp.strip()
             name = item.VarNameCompleteNoModifiers
+            value = self._ReverseInlineBlock(item)
             if name not in _exp.keys():
                 _exp[name] = None
-            if INLINE_BLOCK in item.VarValueStripped:
-                _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in [" = ", " := "]:
-                _exp[name] = item.VarValueStripped
-            elif varop == " ?= " and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
-            elif varop == " ??= " and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
-            elif varop == " += ":
+            if varop in ["=", ":="]:
+                _exp[name] = value
+            elif varop == "?=" and _exp[name] is None:
+                _exp[name] = value
+            elif varop == "??=":
+                _weak[name] = value
+            elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += " " + item.VarValueStripped
-            elif varop == " =+ ":
+                _exp[name] += " " + value
+            elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + " " + _exp[name]
-            elif varop in [" .= "]:
+                _exp[name] = value + " " + _exp[name]
+            elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
-            elif varop in [" =. "]:
+                _exp[name] += value
+            elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
+        # weak defaults are just used if nothing else did set the variable
+        for name, value in _weak.items():
+            if _exp.get(name) is None:
+                _exp[name] = value
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
+            if "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
-            elif "append" in item.SubItems:
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += self._ReverseInlineBlock(item)
             elif "prepend" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = self._ReverseInlineBlock(item) + _exp[name]
         # and now for the run with remove
+        _removed = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
             if "remove" in item.SubItems:
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] = _exp[name].replace(item.VarValueStripped, "")
+                _removed[name] = _removed.get(name, []) + Item.safe_linesplit(
+                    self.ExpandTerm(filename, self._ReverseInlineBlock(item)))
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
             _newkey = self.ExpandTerm(filename, k)
             if _newkey not in _finalexp:
                 _finalexp[_newkey] = []
-            _finalexp[_newkey] += Item.safe_linesplit(
-                self.ExpandTerm(filename, v or ""))
+            _finalexp[_newkey] += [x for x in Item.safe_linesplit(
+                self.ExpandTerm(filename, v or "")) if x not in _removed.get(k, [])]
         return _finalexp
 
     @functools.cache  # noqa: B019
-- 
2.43.0


From fb1241a51f2d9aabdb518753f592043632d7a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 37/62] fix: an empty word in PACKAGES_DYNAMIC does not match
 every package

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 8c831fe..57fa491 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -984,8 +984,8 @@ class Stash():
                                  attribute=Variable.ATTR_VAR,
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
-            packages_dynamic.update(self.SafeLineSplit(
-                self.ExpandTerm(_file, i.VarValueStripped)))
+            packages_dynamic.update(x for x in self.SafeLineSplit(
+                self.ExpandTerm(_file, i.VarValueStripped)) if x)
 
         return packages_dynamic
 
-- 
2.43.0


From 623fd5e41125d628a24aaf410691dc1595cf3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 38/62] fix: invalid patterns in PACKAGES_DYNAMIC do not raise

---
 oelint_parser/cls_stash.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 57fa491..2b2769a 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1002,7 +1002,11 @@ class Stash():
         """
         expanded = self.ExpandTerm(_file, name)
         for pattern in self.GetPackagesDynamic(_file):
-            if RegexRpl.match(pattern, expanded):
-                return True
+            try:
+                if RegexRpl.match(pattern, expanded):
+                    return True
+            except regex.error:
+                # an invalid pattern doesn't match anything
+                continue
 
         return False
-- 
2.43.0


From 7c0ad10f027b0d68009451094a2b56006430e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 39/62] fix: addtask constraints on continued lines are kept

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index db9076d..51a08ef 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9+\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\b\s*(?P<before>(([^#\n]*(?<!\S)(?=after\b))|([^#\n]*))))|(after\b\s*(?P<after>(([^#\n]*(?<!\S)(?=before\b))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)[\s\x1b]*((before\b\s*(?P<before>(([^#\n]*(?<![^\s\x1b])(?=after\b))|([^#\n]*))))|(after\b\s*(?P<after>(([^#\n]*(?<![^\s\x1b])(?=before\b))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From 97eb06aa36cf35fcbe0ae9f2f2baf7dc1b88c642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 40/62] fix: overrides of functions whose name starts like an
 override

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 6c03154..f8f1379 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -223,9 +223,9 @@ class Item():
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
-        for i in chunks[1:]:
+        for idx, i in enumerate(chunks[1:], 1):
             if i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
-                _suffix = chunks[chunks.index(i):]
+                _suffix = chunks[idx:]
                 break
             else:
                 _var.append(i)
-- 
2.43.0


From 34bea9b17dfa86ecf6fca29d3e16307a25ca20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:25 +0000
Subject: [PATCH 41/62] fix: keep leading and repeated underscores of variable
 and function names

---
 oelint_parser/cls_item.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index f8f1379..0eb6edc 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -201,7 +201,6 @@ class Item():
                 _suffix.append(i + tmp)
             else:
                 _var.append(i + tmp)
-        _var = [x for x in _var if x]
         _suffix = [x for x in _suffix if x]
         return (self.__OverrideDelimiter.join(_var), self.__OverrideDelimiter.join(_suffix))
 
@@ -229,7 +228,6 @@ class Item():
                 break
             else:
                 _var.append(i)
-        _var = [x for x in _var if x]
         _suffix = [x for x in _suffix if x]
         return (self.__OverrideDelimiter.join(_var), self.__OverrideDelimiter.join(_suffix))
 
-- 
2.43.0


From ce4ab530901d36abcfb776dcb8b879a99f6c09ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 42/62] fix: resolve inline blocks that are spread over several
 lines

---
 oelint_parser/inlinerep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 0e95e72..8be54fc 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -28,6 +28,7 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
 __oe_utils_both_contain_regex__ = regex.compile(
     rf"(.*)oe\.utils\.both_contain\({__arg},{__arg},\s*(?P<trueval>{__arg})\s*,.*?\)")
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,.*?)?\)')
+__line_continuation_regex__ = regex.compile(r"\\\s*\n")
 
 
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
@@ -281,7 +282,8 @@ def inlinerep(_in: str, negative_clause: bool = False) -> str:
     Returns:
         str: Expanded string or None, if not applicable
     """
-    _clean_in = _in.lstrip("${@").rstrip("}")
+    _clean_in = RegexRpl.sub(__line_continuation_regex__, "", _in, default=_in)
+    _clean_in = _clean_in.lstrip("${@").rstrip("}")
     for x in [
         bb_utils_contains(_clean_in, negative_clause),
         bb_utils_contains_any(_clean_in, negative_clause),
-- 
2.43.0


From b14a3ff31c8666ffb761d19bea9f8809b4b72af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 43/62] fix: keep quotes that are part of an argument of an
 inline call

---
 oelint_parser/inlinerep.py | 54 ++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 8be54fc..26973a4 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -31,6 +31,20 @@ __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,.*?)?\)')
 __line_continuation_regex__ = regex.compile(r"\\\s*\n")
 
 
+def __unquote(_in: str) -> str:
+    """Remove the quotes around an argument, but none that are part of it
+
+    Args:
+        _in (str): Argument of a call
+
+    Returns:
+        str: Value of the argument
+    """
+    if len(_in) > 1 and _in[0] in "\"'" and _in[0] == _in[-1]:
+        return _in[1:-1]
+    return _in.strip("\"'")
+
+
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     """bb.utils.filter emulation
 
@@ -47,7 +61,7 @@ def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return __unquote(m.group('trueval'))
     return None
 
 
@@ -66,8 +80,8 @@ def bb_utils_contains(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote(m.group('falseval'))
+        return __unquote(m.group('trueval'))
     return None
 
 
@@ -86,8 +100,8 @@ def bb_utils_contains_any(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_any_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote(m.group('falseval'))
+        return __unquote(m.group('trueval'))
     return None
 
 
@@ -106,8 +120,8 @@ def oe_utils_conditional(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_conditional_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote(m.group('falseval'))
+        return __unquote(m.group('trueval'))
     return None
 
 
@@ -126,8 +140,8 @@ def oe_utils_ifelse(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_ifelse_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote(m.group('falseval'))
+        return __unquote(m.group('trueval'))
     return None
 
 
@@ -148,8 +162,8 @@ def oe_utils_any_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return __unquote(falseval)
+        return __unquote(trueval)
     return None
 
 
@@ -170,8 +184,8 @@ def oe_utils_all_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return __unquote(falseval)
+        return __unquote(trueval)
     return None
 
 
@@ -190,8 +204,8 @@ def oe_utils_vartrue(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_vartrue_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote(m.group('falseval'))
+        return __unquote(m.group('trueval'))
     return None
 
 
@@ -210,8 +224,8 @@ def oe_utils_less_or_equal(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote(m.group('falseval'))
+        return __unquote(m.group('trueval'))
     return None
 
 
@@ -230,8 +244,8 @@ def oe_utils_version_less_or_equal(_in: str, negative_clause: bool = False) -> s
     m = RegexRpl.match(__oe_utils_version_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote(m.group('falseval'))
+        return __unquote(m.group('trueval'))
     return None
 
 
@@ -251,7 +265,7 @@ def oe_utils_both_contain(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return __unquote(m.group('trueval'))
     return None
 
 
-- 
2.43.0


From 12e3bd60f2736ffed8b0c204074b3080fab0013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 44/62] fix: expand the first reference inside of an inline
 block

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 2b2769a..b1013e7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -17,7 +17,7 @@ __safeline_split_regex__ = regex.compile(r"\s|\t|\x1b")
 __class_id_regex__ = regex.compile(r"^(nativesdk-)*(.+)(-native)*(-cross)*")
 __class_id_native_regex__ = regex.compile(r"^(.+)(-native)$")
 __class_id_cross_regex__ = regex.compile(r"^(.+)(-cross)$")
-__variable_pattern_regex__ = regex.compile(r"\$\{(.+?)\}")
+__variable_pattern_regex__ = regex.compile(r"\$\{(?!@)(.+?)\}")
 __variable_pattern_regex_2__ = regex.compile(
     r"d.getVar\(.(.+?).(True|False|,|\s+)*\)")
 __oe_utils_read_file_regex__ = regex.compile(
-- 
2.43.0


From c729aa2f84765424f7083e101324121a613db7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 45/62] fix: source URI options do not take part in splitting
 the location

A host without a path followed by options with '@' or brackets was treated as malformed.
---
 oelint_parser/cls_stash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index b1013e7..3e1971e 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -724,18 +724,18 @@ class Stash():
         """
         _raw = self._replace_with_known_mirrors(string)
         try:
-            _url = urlparse(self._replace_with_known_mirrors(string))
+            # options are not part of the location
+            _url = urlparse(_raw.split(";")[0])
         except ValueError:
             return {"scheme": '', "src": '', "options": {}}
         _scheme = _url.scheme
         _tmp = _url.netloc
         if _url.path:
             _tmp += "/" + _url.path.lstrip("/")
-        _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
         _parsed_opt = {x.split("=", 1)[0]: x.split("=", 1)[1]
                        for x in _options if "=" in x}
-        return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
+        return {"scheme": _scheme, "src": _tmp, "options": _parsed_opt}
 
     @functools.cache  # noqa: B019
     def SafeLineSplit(self, string: str) -> List[str]:
-- 
2.43.0


From 3c9690dd24ba4196ece6fd54ee41b22193c8d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:52 +0000
Subject: [PATCH 46/62] fix: directories with glob characters

Files and layer configurations below a directory like 'build[1]' were not found.
---
 oelint_parser/cls_stash.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 3e1971e..60d7721 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -350,10 +350,10 @@ class Stash():
         """
         _root = self.GetLayerRoot(path)
         if _root:
-            for conf in glob.glob(os.path.join(_root, "conf", "distro", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "distro", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
-            for conf in glob.glob(os.path.join(_root, "conf", "machine", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "machine", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
 
@@ -659,9 +659,9 @@ class Stash():
         src_uris = self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
                                     attribute=Variable.ATTR_VAR, attributeValue="SRC_URI")
         files_paths = {
-            "{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern) for x in src_uris}
+            "{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern) for x in src_uris}
         for item in src_uris:
-            files_paths.update({"{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern)
+            files_paths.update({"{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern)
                                 for x in self.GetItemsFor(filename=item.Origin)})
         for item in files_paths:
             res.update(glob.glob(item))
-- 
2.43.0


From 8753a5e501f6a4c10355924b6b19b31dcc658fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 47/62] fix: image and packagegroup classes inherited with
 their file extension

---
 oelint_parser/cls_stash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 60d7721..75c8e2d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -946,7 +946,7 @@ class Stash():
             filename=_file, classifier=Inherit.CLASSIFIER)
         for item in _inherits:
             res |= any(True for x in item.get_items()
-                       if x in CONSTANTS.ImagesClasses)
+                       if x.removesuffix(".bbclass") in CONSTANTS.ImagesClasses)
 
         for _var in CONSTANTS.ImagesVariables:
             res |= any(self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
@@ -966,7 +966,8 @@ class Stash():
         """
         _inherits = self.GetItemsFor(
             filename=_file, classifier=Inherit.CLASSIFIER)
-        return any(x for x in _inherits if "packagegroup" in x.get_items())
+        return any(x for x in _inherits
+                   if "packagegroup" in [y.removesuffix(".bbclass") for y in x.get_items()])
 
     @functools.cache  # noqa: B019
     def GetPackagesDynamic(self, _file: str) -> Set[str]:
-- 
2.43.0


From 3694686601fd239e53c6481454293c32ee3d64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:27 +0000
Subject: [PATCH 48/62] fix: line continuation between operator and value

The continuation and the opening quote became part of the value.
---
 oelint_parser/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 51a08ef..66b6b8a 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -29,15 +29,15 @@ from oelint_parser.constants import CONSTANTS
 INLINE_BLOCK = "!!!inlineblock!!!"
 
 __regex_var = regex.compile(
-    r"^(?P<varname>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(?P<varname>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?(?P<varval>.*)")
 __regex_func = regex.compile(
     r"^((?P<py>python(?=[\s(]))\s*|(?P<fr>fakeroot(?=\s))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
     r"^(\s|\t)*(?P<statement>inherit(_defer)*)(\s+|\t+)(?P<inhname>.+)")
 __regex_inherit_glob = regex.compile(
-    r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
+    r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>[^=]+?)\s*[\+\?\:\.]*=[\+\.]*\s*(?P<quote>\"|')(?P<value>.*)(?P=quote)")
+    r"^\s*?export(\s+|\t+)(?P<name>[^=]+?)\s*[\+\?\:\.]*=[\+\.]*[\s\x1b]*(?P<quote>\"|')(?P<value>.*)(?P=quote)")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
@@ -50,7 +50,7 @@ __regex_addtask = regex.compile(
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
-- 
2.43.0


From 6f66788d852c84efa5398daf07b2d5b3834bad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:09 +0000
Subject: [PATCH 49/62] fix: continued line starting with 'x' is not a hex
 escape

---
 oelint_parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 66b6b8a..5919bab 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -183,7 +183,8 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
            "inline_blocks": inline_blocks,
-           "cnt": raw_line.replace("\n", "").replace("\\", chr(0x1b))}
+           # a line starting with 'x' must not turn its continuation into a hex escape
+           "cnt": raw_line.replace("\\\nx", "\\ x").replace("\n", "").replace("\\", chr(0x1b))}
     return (res, nextbuf, length)
 
 
-- 
2.43.0


From 92146ae8927329eb4682ce21a89842e7d1e07cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:39 +0000
Subject: [PATCH 50/62] fix: answers of queries belong to the caller

---
 oelint_parser/cls_stash.py | 47 ++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 75c8e2d..2cc74d8 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1,9 +1,10 @@
+import copy
 import functools
 import glob
 import hashlib
 import os
 from collections import UserList
-from typing import Iterable, List, Set, Union
+from typing import Callable, Iterable, List, Set, Union
 from urllib.parse import urlparse
 
 import regex
@@ -24,6 +25,28 @@ __oe_utils_read_file_regex__ = regex.compile(
     r"\{@\s*(.*)oe\.utils\.read_file\((?P<file>.*)\)\}")
 
 
+def _cached_copy(func: Callable) -> Callable:
+    """functools.cache for functions that return a list, a set or a dictionary
+
+    Every caller gets an own copy, so changing it doesn't change the result of later calls
+
+    Args:
+        func (Callable): function to cache
+
+    Returns:
+        Callable: cached function
+    """
+    _cached = functools.cache(func)
+
+    @functools.wraps(func)
+    def _wrapper(*args, **kwargs):
+        return copy.deepcopy(_cached(*args, **kwargs))
+
+    _wrapper.cache_clear = _cached.cache_clear
+    _wrapper.cache_info = _cached.cache_info
+    return _wrapper
+
+
 class Stash():
     """The Stash object is the central storage for extracting the bitbake information."""
 
@@ -375,7 +398,7 @@ class Stash():
         # Reset caches
         self._clear_cached()
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetRecipes(self) -> None:
         """Get bb files in stash
 
@@ -384,7 +407,7 @@ class Stash():
         """
         return sorted({x for x in self.__map if x.endswith(".bb")})
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetLoneAppends(self) -> List[str]:
         """Get bbappend without a matching bb
 
@@ -400,7 +423,7 @@ class Stash():
                     x for x in v if x.endswith('.bbappend'))
         return sorted({x for x in __appends if x not in __linked_appends})
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetConfFiles(self) -> List[str]:
         """Get configurations files
 
@@ -409,7 +432,7 @@ class Stash():
         """
         return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetBBClasses(self) -> List[str]:
         """Get bbclass files
 
@@ -449,7 +472,7 @@ class Stash():
 
         return [x for x in items if _filter(x, attname, attvalue)]
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetLinksForFile(self, filename: str) -> List[str]:
         """Get file which this file is linked against
 
@@ -644,7 +667,7 @@ class Stash():
                 self.ExpandTerm(filename, v or "")) if x not in _removed.get(k, [])]
         return _finalexp
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetFiles(self, _file: str, pattern: str) -> List[str]:
         """Get files matching SRC_URI entries
 
@@ -712,7 +735,7 @@ class Stash():
             _in = _in.replace(k, v)
         return _in
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetScrComponents(self, string: str) -> dict:
         """Return SRC_URI components
 
@@ -737,7 +760,7 @@ class Stash():
                        for x in _options if "=" in x}
         return {"scheme": _scheme, "src": _tmp, "options": _parsed_opt}
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def SafeLineSplit(self, string: str) -> List[str]:
         """Split line in a safe manner
 
@@ -877,7 +900,7 @@ class Stash():
                 res = ''
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetValidPackageNames(self, _file: str, strippn: bool = False) -> List[str]:
         """Get known valid names for packages
 
@@ -907,7 +930,7 @@ class Stash():
                     res.add(_pkg)
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetValidNamedResources(self, _file: str) -> List[str]:
         """Get list of valid SRCREV resource names
 
@@ -969,7 +992,7 @@ class Stash():
         return any(x for x in _inherits
                    if "packagegroup" in [y.removesuffix(".bbclass") for y in x.get_items()])
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetPackagesDynamic(self, _file: str) -> Set[str]:
         """returns set of dynamic package patterns defined for _file
 
-- 
2.43.0


From fcf7d773da9c7de236612e4fe640573704e7f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:37 +0000
Subject: [PATCH 51/62] fix: names of addpylib, addfragments and include_all
 end at white space

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 5919bab..0dcc2f0 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -53,12 +53,12 @@ __regex_flagass = regex.compile(
     r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
-    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
+    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/\S+)(\s+|\t+)(?P<namespace>\S+)")
 __regex_unset = regex.compile(
     r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])?")
 __regex_addfragments = regex.compile(
-    r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
-__regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
+    r"addfragments\s+(?P<path>\S+)\s+(?P<variable>\S+)\s+(?P<flagged>\S+)")
+__regex_includeall = regex.compile(r"include_all\s+(?P<file>\S+)")
 __func_start_regexp__ = regex.compile(
     r"^\s*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
-- 
2.43.0


From 7f4af3b1669b20d3af12df97ab5a631043d967bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:49 +0000
Subject: [PATCH 52/62] fix: names of included files with other characters

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 0dcc2f0..2b1200c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,7 +44,7 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)(\s*->[^:]*)?\s*\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9+\-\./\$\{\}]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[^\s\x1b=\"'#]+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)[\s\x1b]*((before\b\s*(?P<before>(([^#\n]*(?<![^\s\x1b])(?=after\b))|([^#\n]*))))|(after\b\s*(?P<after>(([^#\n]*(?<![^\s\x1b])(?=before\b))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-- 
2.43.0


From 363a190d7192075186b319e59bdb0962b9038dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:43 +0000
Subject: [PATCH 53/62] fix: a file that could not be read can be added later

---
 oelint_parser/cls_stash.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 2cc74d8..96c3885 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -243,6 +243,11 @@ class Stash():
                             lineOffset=lineOffset,
                             new_style_override_syntax=self.__new_style_override_syntax,
                             negative=self.__negative_inline)
+        except Exception:
+            # the file isn't known, so it can be added once it is readable
+            self.__seen_files.discard(_file)
+            self.__seen_classes.discard(_file)
+            raise
         finally:
             self.__active_files.pop()
         if _file not in self.__map:
-- 
2.43.0


From bf6e1d2170141eec077db861cc47747d3d9bd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:56 +0000
Subject: [PATCH 54/62] fix: the text around a file read by a value stays when
 it is expanded

---
 oelint_parser/cls_stash.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 96c3885..05fb02d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -22,7 +22,7 @@ __variable_pattern_regex__ = regex.compile(r"\$\{(?!@)(.+?)\}")
 __variable_pattern_regex_2__ = regex.compile(
     r"d.getVar\(.(.+?).(True|False|,|\s+)*\)")
 __oe_utils_read_file_regex__ = regex.compile(
-    r"\{@\s*(.*)oe\.utils\.read_file\((?P<file>.*)\)\}")
+    r"\$?\{@[^{}]*?oe\.utils\.read_file\((?P<file>((?!\{@).)*?)\)\}")
 
 
 def _cached_copy(func: Callable) -> Callable:
@@ -893,16 +893,18 @@ class Stash():
             res = _expand(res, _file, m)
         for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value)):
             res = _expand(res, _file, m, quote='"')
-        for m in list(RegexRpl.finditer(__oe_utils_read_file_regex__, value)):
+        for m in list(RegexRpl.finditer(__oe_utils_read_file_regex__, res)):
+            _content = ''
             try:
                 _fullpath = self.ExpandTerm(_file, m.group(
                     "file"), spare=spare, seen=seen).strip("'\"")
-                res = ''
                 if os.path.isfile(_fullpath):
                     with open(_fullpath) as i:
-                        res = i.read()
+                        _content = i.read()
             except (OSError, ValueError):
-                res = ''
+                pass
+            # the text around stays
+            res = res.replace(m.group(0), _content)
         return res
 
     @_cached_copy
-- 
2.43.0


From 2189d409b3a556fcc17aa7a212f181566891b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:08 +0000
Subject: [PATCH 55/62] fix: a constant database with invalid bytes can't be
 loaded

---
 oelint_parser/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index c6b4a56..8e92a1e 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -23,7 +23,7 @@ class Constants():
         try:
             with open(path) as _in:
                 return json.load(_in)
-        except (OSError, json.JSONDecodeError):
+        except (OSError, ValueError):
             sys.stderr.write('Cannot load constant database\n')
             return {}
 
-- 
2.43.0


From 5ae0f91a03af83b9a72170715a2cfaef0080c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:56 +0000
Subject: [PATCH 56/62] fix: single-quoted values don't keep their quotes

---
 oelint_parser/cls_item.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 0eb6edc..a7d1410 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -163,6 +163,12 @@ class Item():
         """
         return Item(None, None, None, None, None, [])._safe_linesplit(string)
 
+    @staticmethod
+    def _strip_quotes(value: str) -> str:
+        if len(value) > 1 and value[0] == value[-1] == "'":
+            return value[1:-1]
+        return value.strip('"')
+
     def _safe_linesplit(self, string: str) -> List[str]:
         return [x for x in RegexRpl.split(__safeline_split_regex__, string) if x]
 
@@ -375,7 +381,7 @@ class Variable(Item):
         Returns:
             str: stripped version of variable value
         """
-        return self.VarValue.strip().lstrip('"').rstrip('"')
+        return self._strip_quotes(self.VarValue.strip())
 
     def IsAppend(self) -> bool:
         """Check if operation is an append
@@ -412,7 +418,7 @@ class Variable(Item):
         Returns:
             list -- clean list of items in variable value
         """
-        _x = override.strip('"') or self.VarValue.strip().strip('"')
+        _x = override.strip('"') or self._strip_quotes(self.VarValue.strip())
         if versioned:
             _x = RegexRpl.sub(__versioned_regex__, "", _x)
         return self._safe_linesplit(_x)
@@ -863,7 +869,7 @@ class FlagAssignment(Item):
         Returns:
             str: value set
         """
-        return self.__value.strip('"')
+        return self._strip_quotes(self.__value)
 
     def get_items(self) -> Tuple[str, str, str, str]:
         """Get items
-- 
2.43.0


From f4326a64c99df3dcf4413525f2256fa97a92fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:03 +0000
Subject: [PATCH 57/62] fix: addpylib with a path outside of LAYERDIR

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 2b1200c..414aec2 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -53,7 +53,7 @@ __regex_flagass = regex.compile(
     r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
-    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/\S+)(\s+|\t+)(?P<namespace>\S+)")
+    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\S+)(\s+|\t+)(?P<namespace>\S+)")
 __regex_unset = regex.compile(
     r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])?")
 __regex_addfragments = regex.compile(
-- 
2.43.0


From 57a0792cd8557717cd051dbdeaa1eb23dc765632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 58/62] fix: trailing blanks after a flag's value don't leave a
 quote in it

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index a7d1410..7e839ae 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -869,7 +869,7 @@ class FlagAssignment(Item):
         Returns:
             str: value set
         """
-        return self._strip_quotes(self.__value)
+        return self._strip_quotes(self.__value.strip())
 
     def get_items(self) -> Tuple[str, str, str, str]:
         """Get items
-- 
2.43.0


From 321630c16f0b3f68ea2f685f33c23c76dcd3a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:59 +0000
Subject: [PATCH 59/62] fix: directives continued on the next line right after
 the keyword or name

---
 oelint_parser/parser.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 414aec2..e10201b 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -29,7 +29,7 @@ from oelint_parser.constants import CONSTANTS
 INLINE_BLOCK = "!!!inlineblock!!!"
 
 __regex_var = regex.compile(
-    r"^(?P<varname>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?(?P<varval>.*)")
+    r"^(?P<varname>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)(\s*\x1b[\s\x1b]*)?(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?(?P<varval>.*)")
 __regex_func = regex.compile(
     r"^((?P<py>python(?=[\s(]))\s*|(?P<fr>fakeroot(?=\s))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
@@ -37,28 +37,28 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>[^=]+?)\s*[\+\?\:\.]*=[\+\.]*[\s\x1b]*(?P<quote>\"|')(?P<value>.*)(?P=quote)")
-__regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
+    r"^\s*?export[\s\x1b]+(?P<name>[^=]+?)[\s\x1b]*[\+\?\:\.]*=[\+\.]*[\s\x1b]*(?P<quote>\"|')(?P<value>.*)(?P=quote)")
+__regex_export_woval = regex.compile(r"^\s*?export[\s\x1b]+(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)(\s*->[^:]*)?\s*\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[^\s\x1b=\"'#]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)[\s\x1b]+(?P<incname>[^\s\x1b=\"'#]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)[\s\x1b]*((before\b\s*(?P<before>(([^#\n]*(?<![^\s\x1b])(?=after\b))|([^#\n]*))))|(after\b\s*(?P<after>(([^#\n]*(?<![^\s\x1b])(?=before\b))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask[\s\x1b]+(?P<func>[\w\-]+)[\s\x1b]*((before\b\s*(?P<before>(([^#\n]*(?<![^\s\x1b])(?=after\b))|([^#\n]*))))|(after\b\s*(?P<after>(([^#\n]*(?<![^\s\x1b])(?=before\b))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-    r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
+    r"^(\s*|\t*)deltask[\s\x1b]+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?(?P<varval>.*)")
+    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](\s*\x1b[\s\x1b]*)?(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(\x1b[\s\x1b]*)?(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
-    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\S+)(\s+|\t+)(?P<namespace>\S+)")
+    r"^(\s+|\t*)addpylib[\s\x1b]+(?P<path>[^\s\x1b]+)[\s\x1b]+(?P<namespace>[^\s\x1b]+)")
 __regex_unset = regex.compile(
-    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])?")
+    r"^(\s+|\t+)*unset[\s\x1b]+(?P<varname>[^\s\x1b\[]+)(\[(?P<flag>[^\]]+)\])?")
 __regex_addfragments = regex.compile(
-    r"addfragments\s+(?P<path>\S+)\s+(?P<variable>\S+)\s+(?P<flagged>\S+)")
-__regex_includeall = regex.compile(r"include_all\s+(?P<file>\S+)")
+    r"addfragments[\s\x1b]+(?P<path>[^\s\x1b]+)[\s\x1b]+(?P<variable>[^\s\x1b]+)[\s\x1b]+(?P<flagged>[^\s\x1b]+)")
+__regex_includeall = regex.compile(r"include_all[\s\x1b]+(?P<file>[^\s\x1b]+)")
 __func_start_regexp__ = regex.compile(
     r"^\s*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
-- 
2.43.0


From 577ed3128aef9ecff7a5c8167dfed123dd7f9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:13 +0000
Subject: [PATCH 60/62] fix: files are read as UTF-8 whatever the locale

---
 oelint_parser/cls_stash.py | 2 +-
 oelint_parser/constants.py | 2 +-
 oelint_parser/parser.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 05fb02d..637dff1 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -899,7 +899,7 @@ class Stash():
                 _fullpath = self.ExpandTerm(_file, m.group(
                     "file"), spare=spare, seen=seen).strip("'\"")
                 if os.path.isfile(_fullpath):
-                    with open(_fullpath) as i:
+                    with open(_fullpath, encoding="utf-8") as i:
                         _content = i.read()
             except (OSError, ValueError):
                 pass
diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 8e92a1e..25d3ead 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -21,7 +21,7 @@ class Constants():
 
     def __load_db(self, path: str) -> dict:
         try:
-            with open(path) as _in:
+            with open(path, encoding="utf-8") as _in:
                 return json.load(_in)
         except (OSError, ValueError):
             sys.stderr.write('Cannot load constant database\n')
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index e10201b..3cb008c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -201,7 +201,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
     """
     try:
         prep_lines = []
-        with open(_file) as i:
+        with open(_file, encoding="utf-8") as i:
             _iter = enumerate(i.readlines())
             nextbuf = ''
             num = 1
-- 
2.43.0


From bed228d575186721c7384c7b3698c7a0e375da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:26 +0000
Subject: [PATCH 61/62] fix: answers follow edits of the constants

---
 oelint_parser/cls_stash.py | 38 ++++++++++++++++++++++++++++++++------
 oelint_parser/constants.py | 13 +++++++++++++
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 637dff1..3f07d53 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -25,6 +25,32 @@ __oe_utils_read_file_regex__ = regex.compile(
     r"\$?\{@[^{}]*?oe\.utils\.read_file\((?P<file>((?!\{@).)*?)\)\}")
 
 
+def _cached(func: Callable) -> Callable:
+    """functools.cache for functions that depend on the constants
+
+    Args:
+        func (Callable): function to cache
+
+    Returns:
+        Callable: cached function
+    """
+    _cache = functools.cache(func)
+    _revision = None
+
+    @functools.wraps(func)
+    def _wrapper(*args, **kwargs):
+        nonlocal _revision
+        _current = CONSTANTS.Revision
+        if _revision != _current:
+            _cache.cache_clear()
+            _revision = _current
+        return _cache(*args, **kwargs)
+
+    _wrapper.cache_clear = _cache.cache_clear
+    _wrapper.cache_info = _cache.cache_info
+    return _wrapper
+
+
 def _cached_copy(func: Callable) -> Callable:
     """functools.cache for functions that return a list, a set or a dictionary
 
@@ -36,14 +62,14 @@ def _cached_copy(func: Callable) -> Callable:
     Returns:
         Callable: cached function
     """
-    _cached = functools.cache(func)
+    _cache = _cached(func)
 
     @functools.wraps(func)
     def _wrapper(*args, **kwargs):
-        return copy.deepcopy(_cached(*args, **kwargs))
+        return copy.deepcopy(_cache(*args, **kwargs))
 
-    _wrapper.cache_clear = _cached.cache_clear
-    _wrapper.cache_info = _cached.cache_info
+    _wrapper.cache_clear = _cache.cache_clear
+    _wrapper.cache_info = _cache.cache_info
     return _wrapper
 
 
@@ -960,7 +986,7 @@ class Stash():
                         "${PN}", _recipe_name))
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached
     def IsImage(self, _file: str) -> bool:
         """returns if the file is likely an image recipe or not
 
@@ -1020,7 +1046,7 @@ class Stash():
 
         return packages_dynamic
 
-    @functools.cache  # noqa: B019
+    @_cached
     def IsDynamicPackage(self, _file: str, name: str) -> bool:
         """returns if the name is likely a dynamic package or not
 
diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 25d3ead..53a0b46 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -18,6 +18,7 @@ class Constants():
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
         self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
+        self.__revision = 0
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -58,6 +59,7 @@ class Constants():
                     a[k] = a[k] + v
             return a
         self.__db = dict_merge(self.__db, _dict)
+        self.__revision += 1
 
     def RemoveConstants(self, _dict: dict) -> None:
         """Remove constants from the existing
@@ -79,6 +81,7 @@ class Constants():
                     a[k] = [x for x in a[k] if x not in v]
             return a
         self.__db = dict_merge(self.__db, _dict)
+        self.__revision += 1
 
     def OverrideConstants(self, _dict: dict) -> None:
         """Override constants in the existing db
@@ -94,6 +97,16 @@ class Constants():
                     a[k] = copy.deepcopy(v)
             return a
         self.__db = dict_merge(self.__db, _dict)
+        self.__revision += 1
+
+    @property
+    def Revision(self) -> int:
+        """Number of modifications done to the constants
+
+        Returns:
+            int: number of modifications
+        """
+        return self.__revision
 
     @property
     def FunctionsKnown(self) -> List[str]:
-- 
2.43.0


From 8cfc1425586cb08f4fe605e045112d0990b0c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:38 +0000
Subject: [PATCH 62/62] fix: answers follow edits of items

---
 oelint_parser/cls_item.py  | 8 ++++++++
 oelint_parser/cls_stash.py | 6 +++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 7e839ae..5cc03b9 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -21,6 +21,8 @@ class Item():
     ATTR_ORIGIN = "Origin"
     CLASSIFIER = "Item"
     ATTR_SUB = "SubItem"
+    # modifications done to any item, to know when values derived from items are outdated
+    Revision = 0
 
     def __init__(self,
                  origin: str,
@@ -62,6 +64,7 @@ class Item():
     @Line.setter
     def Line(self, value: int) -> None:
         self.__Line = value
+        Item.Revision += 1
 
     @property
     def Raw(self) -> str:
@@ -75,6 +78,7 @@ class Item():
     @Raw.setter
     def Raw(self, value: str) -> None:
         self.__Raw = value
+        Item.Revision += 1
 
     @property
     def Origin(self) -> str:
@@ -106,6 +110,7 @@ class Item():
     @RealRaw.setter
     def RealRaw(self, value: str) -> None:
         self.__RealRaw = value
+        Item.Revision += 1
 
     @property
     def IsFromClass(self) -> bool:
@@ -150,6 +155,7 @@ class Item():
     @IncludedFrom.setter
     def IncludedFrom(self, value: set[str]) -> None:
         self.__IncludedFrom.update(value)
+        Item.Revision += 1
 
     @staticmethod
     def safe_linesplit(string: str) -> List[str]:
@@ -337,6 +343,7 @@ class Variable(Item):
     @VarValue.setter
     def VarValue(self, value: str) -> None:
         self.__VarValue = value
+        Item.Revision += 1
 
     @property
     def VarOp(self) -> str:
@@ -704,6 +711,7 @@ class Function(Item):
     @FuncBody.setter
     def FuncBody(self, value: str) -> None:
         self.__FuncBody = value
+        Item.Revision += 1
 
     @property
     def FuncBodyStripped(self) -> str:
diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 3f07d53..620a954 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -26,7 +26,7 @@ __oe_utils_read_file_regex__ = regex.compile(
 
 
 def _cached(func: Callable) -> Callable:
-    """functools.cache for functions that depend on the constants
+    """functools.cache for functions that depend on the constants and the content of items
 
     Args:
         func (Callable): function to cache
@@ -40,7 +40,7 @@ def _cached(func: Callable) -> Callable:
     @functools.wraps(func)
     def _wrapper(*args, **kwargs):
         nonlocal _revision
-        _current = CONSTANTS.Revision
+        _current = (CONSTANTS.Revision, Item.Revision)
         if _revision != _current:
             _cache.cache_clear()
             _revision = _current
@@ -488,7 +488,7 @@ class Stash():
             return items
         return [x for x in items if x.CLASSIFIER in classifier]
 
-    @functools.cache  # noqa: B019
+    @_cached
     def __get_items_by_attribute(self, items: Iterable[Item], attname: Iterable[str], attvalue: Iterable[str]) -> List[Item]:
         if not attname:
             return items
-- 
2.43.0

