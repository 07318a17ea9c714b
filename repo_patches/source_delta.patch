From 5da63019b60dddf2744c2c2943f72d182cfd5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:20 +0000
Subject: [PATCH 001/160] fix: GetContainingModules fails when package paths
 are nested more than one level deep

---
 edk2toollib/uefi/edk2/path_utilities.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index c31c385..b536c53 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -344,16 +344,11 @@ class Edk2Path(object):
         all_root_paths = self._package_path_list + [self._workspace_path]
 
         # For each root path, find the maximum allowed root in its hierarchy.
-        maximum_root_paths = all_root_paths
-        for root_path in maximum_root_paths:
-            for other_root_path in maximum_root_paths[:]:
-                if root_path == other_root_path:
-                    continue
-                if root_path.is_relative_to(other_root_path):
-                    if len(root_path.parts) > len(other_root_path.parts):
-                        maximum_root_paths.remove(root_path)
-                    else:
-                        maximum_root_paths.remove(other_root_path)
+        maximum_root_paths = [
+            root_path
+            for root_path in all_root_paths
+            if not any(root_path != other and root_path.is_relative_to(other) for other in all_root_paths)
+        ]
 
         # Verify the file path is within a valid workspace or package path
         # directory.
-- 
2.43.0


From bdfe8a193c0ca244a2a0a9ddcf5544d885902956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:42 +0000
Subject: [PATCH 002/160] fix: GetContainingModules never returns when given
 the workspace or a package path itself

---
 edk2toollib/uefi/edk2/path_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index b536c53..7e03c68 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -385,7 +385,7 @@ class Edk2Path(object):
             # neither of which are a module directory, once that point is
             # reached, all possible module candidates are exhausted.
             current_dir = input_path.parent
-            while current_dir not in maximum_root_paths:
+            while input_path not in maximum_root_paths and current_dir not in maximum_root_paths:
                 if current_dir.is_dir():
                     current_dir_inf_files = [
                         str(f) for f in current_dir.iterdir() if f.is_file() and f.suffix.lower() == ".inf"
-- 
2.43.0


From ffd8a5190ea9d9628a9340fbfa7326f30bce6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 003/160] fix: ignore patterns ending in '/ ' or one character
 and a space keep their trailing space

---
 edk2toollib/gitignore_parser.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 513e407..63f8566 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -105,6 +105,18 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
         pattern = pattern[1:]
     else:
         negation = False
+    # trailing spaces are ignored unless they are escaped with a backslash
+    i = len(pattern) - 1
+    striptrailingspaces = True
+    while i > 0 and pattern[i] == " ":
+        if pattern[i - 1] == "\\":
+            pattern = pattern[: i - 1] + pattern[i:]
+            i = i - 1
+            striptrailingspaces = False
+        else:
+            if striptrailingspaces:
+                pattern = pattern[:i]
+        i = i - 1
     # Multi-asterisks not surrounded by slashes (or at the start/end) should
     # be treated like single-asterisks.
     pattern = re.sub(r"([^/])\*{2,}", r"\1*", pattern)
@@ -131,18 +143,6 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     # backslash in front, unescape it
     if pattern[0] == "\\" and pattern[1] in ("#", "!"):
         pattern = pattern[1:]
-    # trailing spaces are ignored unless they are escaped with a backslash
-    i = len(pattern) - 1
-    striptrailingspaces = True
-    while i > 1 and pattern[i] == " ":
-        if pattern[i - 1] == "\\":
-            pattern = pattern[: i - 1] + pattern[i:]
-            i = i - 1
-            striptrailingspaces = False
-        else:
-            if striptrailingspaces:
-                pattern = pattern[:i]
-        i = i - 1
     regex = fnmatch_pathname_to_regex(pattern, directory_only, negation, anchored=bool(anchored))
     return IgnoreRule(
         pattern=orig_pattern,
-- 
2.43.0


From d8740af028d7ecdd7809741458120ced6213950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 004/160] fix: ignore patterns '**', '**/' and '/**' raise
 IndexError

---
 edk2toollib/gitignore_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 63f8566..ea0b02e 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -132,7 +132,7 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     anchored = "/" in pattern[:-1]
     if pattern[0] == "/":
         pattern = pattern[1:]
-    if pattern[0] == "*" and len(pattern) >= 2 and pattern[1] == "*":
+    if pattern.startswith("**/") and len(pattern) > 3:
         pattern = pattern[2:]
         anchored = False
     if pattern[0] == "/":
-- 
2.43.0


From 21daed657ecb5a3ce6629ff622c5892697ea50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 005/160] fix: negated character classes in ignore patterns
 match the path separator

---
 edk2toollib/gitignore_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index ea0b02e..2f94477 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -256,7 +256,7 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
                 stuff = pattern[i:j].replace("\\", "\\\\").replace("/", "")
                 i = j + 1
                 if stuff[0] == "!":
-                    stuff = "".join(["^", stuff[1:]])
+                    stuff = "".join(["^/", stuff[1:]])
                 elif stuff[0] == "^":
                     stuff = "".join("\\" + stuff)
                 res.append("[{}]".format(stuff))
-- 
2.43.0


From 44f571a8f4f9b8fb083b479f36cc76d5b75818d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 006/160] fix: negated ignore patterns do not apply to
 directories given with a trailing slash

---
 edk2toollib/gitignore_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 2f94477..83862bb 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -267,7 +267,7 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
     else:
         res.insert(0, f"(^|{seps_group})")
     if not directory_only:
-        res.append("$")
+        res.append("/?$" if negation else "$")
     elif directory_only and negation:
         res.append("/$")
     else:
-- 
2.43.0


From 60c2bde49c65ea373004126a23587ccc6c404930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 007/160] fix: the !else of a true !ifdef or !ifndef is treated
 as active code

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c4a8a48..a5529d6 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -441,14 +441,16 @@ class BaseParser(object):
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] != self._MacroNotDefinedValue))
+            result = tokens[1] != self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!ifndef":
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] == self._MacroNotDefinedValue))
+            result = tokens[1] == self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!else":
-- 
2.43.0


From 44868eb45cf422f0ec6e933c8241ea9f9985cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 008/160] fix: ordering comparisons and "not in" bind no
 tighter than AND and OR

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index a5529d6..8758a9e 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -717,7 +717,9 @@ class BaseParser(object):
             return 100
         if token == "NOT":  # not is the lowest
             return -2
-        if token == "IN" or token == "==" or token == "!=":
+        if token.startswith("!+"):
+            token = token[2:]
+        if token not in ["OR", "AND"]:  # comparisons bind tighter than OR and AND
             return 1
         return 0
 
-- 
2.43.0


From 690a21ffef35205088dd1420adb063b920d27e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 009/160] fix: NOT after AND or OR is rejected as a stray
 operand

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 8758a9e..587fb3c 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -670,6 +670,9 @@ class BaseParser(object):
                 while len(stack) > 0 and stack[-1] != "(":
                     expression.append(stack.pop())
                 stack.pop()  # pop the last (
+            # NOT is a prefix operator, what is on the stack still waits for its right operand
+            elif token == "NOT":
+                stack.append(token)
             # If this isn't a operator ignore it
             elif not cls._IsOperator(token):
                 expression.append(token)
-- 
2.43.0


From d8deb9d3f2d0b6d08ad1ae2347ec96589f119a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 010/160] fix: a GUID followed by other text is recognised as a
 GUID

---
 edk2toollib/uefi/edk2/parsers/guid_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/guid_parser.py b/edk2toollib/uefi/edk2/parsers/guid_parser.py
index 6e05729..e2299c1 100644
--- a/edk2toollib/uefi/edk2/parsers/guid_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/guid_parser.py
@@ -54,8 +54,8 @@ class GuidParser:
           (bool): True if in C format. Otherwise False
 
         """
-        guidstring = guidstring.strip()
-        return cls.GuidCFormatRegEx.match(guidstring)
+        guidstring = guidstring.strip().rstrip("; ")
+        return cls.GuidCFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def is_guid_in_reg_format(cls: "GuidParser", guidstring: str) -> bool:
@@ -68,7 +68,7 @@ class GuidParser:
           (bool): True if in Registry format. Otherwise False
         """
         guidstring = guidstring.strip().strip("} {")
-        return cls.GuidRegFormatRegEx.match(guidstring)
+        return cls.GuidRegFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def reg_guid_from_c_format(cls: "GuidParser", guidstring: str) -> str:
-- 
2.43.0


From 019e3aaa391ab0c8cbf2e13823ad3872ee1ef5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 011/160] fix: ParseGuid fails on fields with an upper-case 0X
 prefix

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 587fb3c..417984c 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -774,58 +774,58 @@ class BaseParser(object):
             raise RuntimeError(
                 f"Invalid GUID found {line}. We are missing some parts since we only found: {len(entries)}"
             )
-        gu = entries[0].lstrip(" 0").lstrip("x").strip()
+        gu = entries[0].lstrip(" 0").lstrip("xX").strip()
         # pad front until 8 chars
         while len(gu) < 8:
             gu = "0" + gu
 
-        gut = entries[1].lstrip(" 0").lstrip("x").strip()
+        gut = entries[1].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 4:
             gut = "0" + gut
         gu = gu + "-" + gut
 
-        gut = entries[2].lstrip(" 0").lstrip("x").strip()
+        gut = entries[2].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 4:
             gut = "0" + gut
         gu = gu + "-" + gut
 
         # strip off extra {
-        gut = entries[3].lstrip(" { 0").lstrip("x").strip()
+        gut = entries[3].lstrip(" { 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + "-" + gut
 
-        gut = entries[4].lstrip(" 0").lstrip("x").strip()
+        gut = entries[4].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[5].lstrip(" 0").lstrip("x").strip()
+        gut = entries[5].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + "-" + gut
 
-        gut = entries[6].lstrip(" 0").lstrip("x").strip()
+        gut = entries[6].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[7].lstrip(" 0").lstrip("x").strip()
+        gut = entries[7].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[8].lstrip(" 0").lstrip("x").strip()
+        gut = entries[8].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[9].lstrip(" 0").lstrip("x").strip()
+        gut = entries[9].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[10].split()[0].lstrip(" 0").lstrip("x").rstrip(" } ").strip()
+        gut = entries[10].split()[0].lstrip(" 0").lstrip("xX").rstrip(" } ").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
-- 
2.43.0


From 67c196d309e58381674e9d823c79236e58e5842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 012/160] fix: indented lines with a trailing comment keep
 their indentation, so the FDF parser drops them

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 417984c..79afa0c 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -884,7 +884,7 @@ class HashFileParser(BaseParser):
 
             result.append(char)
 
-        return "".join(result).rstrip()
+        return "".join(result).strip()
 
     def ParseNewSection(self, line: str) -> tuple[bool, str]:
         """Parses a new section line.
-- 
2.43.0


From 589db1a1038aefd07d3647202c0a36120effdb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 013/160] fix: INF entries such as "Resources.c" are taken for
 a section header and dropped from the scoped sources

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 6adf8e7..a5c4193 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -262,13 +262,14 @@ class InfParser(HashFileParser):
 
             line = self.ReplaceVariables(line)
 
+            is_section = line.strip().startswith("[")
             match = self.SECTION_LIBRARY.findall(line)
-            if match:
+            if is_section and match:
                 current_section = "LibraryClasses"
                 arch_list = match
                 continue
             match = self.SECTION_SOURCE.findall(line)
-            if match:
+            if is_section and match:
                 current_section = "Sources"
                 arch_list = match
                 continue
-- 
2.43.0


From 2abafe9528d05025599df11950c6497e60c81191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 014/160] fix: scopes of INF section headers with a space
 before the comma are lost

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index a5c4193..159eaab 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -52,8 +52,8 @@ class InfParser(HashFileParser):
     """
 
     SECTION_REGEX = re.compile(r"\[(.*)\]")
-    SECTION_LIBRARY = re.compile(r"libraryclasses(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
-    SECTION_SOURCE = re.compile(r"sources(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
+    SECTION_LIBRARY = re.compile(r"libraryclasses\s*(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
+    SECTION_SOURCE = re.compile(r"sources\s*(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
 
     def __init__(self) -> "InfParser":
         """Inits an empty parser."""
@@ -283,7 +283,7 @@ class InfParser(HashFileParser):
             # Handle lines when we are in a library section
             if current_section == "LibraryClasses":
                 for arch in arch_list:
-                    arch = "common" if arch == "" else arch.lower()
+                    arch = "common" if arch == "" else arch.strip().lower()
                     if arch in self.ScopedLibraryDict:
                         self.ScopedLibraryDict[arch].append(line.split()[0].strip())
                     else:
@@ -292,7 +292,7 @@ class InfParser(HashFileParser):
             # Handle lines when we are in a source section
             if current_section == "Sources":
                 for arch in arch_list:
-                    arch = "common" if arch == "" else arch.lower()
+                    arch = "common" if arch == "" else arch.strip().lower()
                     src = line.split()[0].strip().rstrip("|")
                     if arch in self.ScopedSourceDict:
                         self.ScopedSourceDict[arch].append(src)
-- 
2.43.0


From c0b8830d4383d3df384f6186c6cedfc95dd9a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 015/160] fix: the scoped sources and libraries of an INF keep
 the "|FLAG" written next to the name

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 159eaab..0169776 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -285,15 +285,15 @@ class InfParser(HashFileParser):
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.strip().lower()
                     if arch in self.ScopedLibraryDict:
-                        self.ScopedLibraryDict[arch].append(line.split()[0].strip())
+                        self.ScopedLibraryDict[arch].append(line.partition("|")[0].split()[0].strip())
                     else:
-                        self.ScopedLibraryDict[arch] = [line.split()[0].strip()]
+                        self.ScopedLibraryDict[arch] = [line.partition("|")[0].split()[0].strip()]
 
             # Handle lines when we are in a source section
             if current_section == "Sources":
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.strip().lower()
-                    src = line.split()[0].strip().rstrip("|")
+                    src = line.partition("|")[0].split()[0].strip()
                     if arch in self.ScopedSourceDict:
                         self.ScopedSourceDict[arch].append(src)
                     else:
-- 
2.43.0


From 61403d924285379a679696c55fcd9d272ba22397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 016/160] fix: entries and macro names containing "DEFINE" are
 damaged or taken for macro definitions

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 7 ++++---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 8 ++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 90075fa..1e5ae85 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -8,6 +8,7 @@
 """Code to help parse EDK2 Fdf files."""
 
 import os
+import re
 
 from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
 
@@ -129,14 +130,14 @@ class FdfParser(HashFileParser):
 
             if InDefinesSection:
                 if sline.count("=") == 1:
-                    tokens = sline.replace("DEFINE", "").split("=", 1)
+                    tokens = re.sub(r"^\s*DEFINE\s", "", sline).split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
             # defining a local variable that is removed when entering a new section
-            elif sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            elif sline.strip().startswith(("DEFINE ", "DEFINE\t")):
+                tokens = re.sub(r"^\s*DEFINE\s", "", sline).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 0169776..0db99f5 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -120,8 +120,8 @@ class InfParser(HashFileParser):
 
             sline = self.ReplaceVariables(sline)
 
-            if sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            if sline.strip().startswith(("DEFINE ", "DEFINE\t")):
+                tokens = sline.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
@@ -254,8 +254,8 @@ class InfParser(HashFileParser):
             if line.strip().startswith("#"):
                 continue
 
-            if line.strip().startswith("DEFINE"):
-                tokens = line.strip().replace("DEFINE", "").split("=", 1)
+            if line.strip().startswith(("DEFINE ", "DEFINE\t")):
+                tokens = line.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From 94a0c5862e22455aca5e5a29b9c81710c7fd1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 017/160] fix: a "$" that starts no macro reference can insert
 the value of a macro into the line

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 79afa0c..d4a589c 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -382,7 +382,7 @@ class BaseParser(object):
 
         replace = len(tokens) > 1 and tokens[0].lower() in ["!if", "!elseif"]
         # use line to avoid change by handling above
-        rep = line.count("$")
+        rep = line.count("$(")
         index = 0
         while rep > 0:
             start = line.find("$(", index)
-- 
2.43.0


From 8f43b814660c7ba7be7fc2819bb4714b0db5b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 018/160] fix: a line with a single double quote fails with an
 IndexError

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index d4a589c..852283b 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -412,7 +412,7 @@ class BaseParser(object):
         Returns:
             (bool): true if a line is a conditiona otherwise false
         """
-        if '"' in text:
+        if text.count('"') > 1:
             tokens = text.split('"')
             tokens = tokens[0].split() + [tokens[1]] + tokens[2].split()
         else:
-- 
2.43.0


From 219bb489e4f0b324cddce38a672c4adb71c11db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 019/160] fix: DscParser.Pcds lists every PCD twice and PCDs of
 inactive code

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index ff6102d..5f3bb38 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -484,6 +484,7 @@ class DscParser(HashFileParser):
         # expand all the lines and include other files
         file_lines = f.readlines()
         self.__ProcessDefines(file_lines)
+        self.Pcds = []
         self.PcdValueDict = {}
         # reset the parser state before processing more
         self.ResetParserState()
-- 
2.43.0


From c17561682bcaf602dcab2336eefd8ff48db3dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 020/160] fix: repeating a library instance drops the other
 instances of its scope

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 5f3bb38..149e954 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -354,10 +354,10 @@ class DscParser(HashFileParser):
                 value = instance.strip()
                 if os.path.isabs(value):
                     value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value)
-                if key in self.ScopedLibraryDict and value not in self.ScopedLibraryDict[key]:
-                    self.ScopedLibraryDict[key].insert(0, value)
-                else:
-                    self.ScopedLibraryDict[key] = [value]
+                instances = self.ScopedLibraryDict.setdefault(key, [])
+                if value in instances:
+                    instances.remove(value)
+                instances.insert(0, value)
 
         return
 
-- 
2.43.0


From 9aa03235f61dc62fa1123ad82790eabf352ef87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 021/160] fix: after an !include, a DSC looks up relative paths
 next to the included file

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 149e954..7767cef 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -285,10 +285,12 @@ class DscParser(HashFileParser):
             # we try here so that we can catch exceptions from individual lines
             try:
                 raw_line = lines[index]
+                target_file = self.TargetFilePath
                 (line, add, new_file) = self.__ParseLine(raw_line, file_name=file_name, lineno=index + 1)
                 if len(line) > 0:
                     self.Lines.append(line)
                 self.__ProcessMore(add, file_name=new_file)
+                self.TargetFilePath = target_file  # back from the include, if any
             except Exception as e:
                 # check if we're in no fail mode or not
                 if not self._no_fail_mode:  # if we are, fail
@@ -312,8 +314,10 @@ class DscParser(HashFileParser):
             # we want to catch exceptions here since we are doing includes as we potentially might blow up
             # we want to catch on a line by line basis
             try:
+                target_file = self.TargetFilePath
                 (line, add) = self.__ParseDefineLine(raw_line)
                 self.__ProcessDefines(add)
+                self.TargetFilePath = target_file  # back from the include, if any
             except Exception:
                 # Since we're going to do this in ProcessMore, don't warn people if there's an exception
                 # otherwise, raise the exception and act normally
-- 
2.43.0


From 563bd5676325d6aef98c798b29d6aeeb13d6007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 022/160] fix: a build option line without "=" (a continued
 line) fails the DSC parser with a TypeError

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 7767cef..6717e9c 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -251,9 +251,7 @@ class DscParser(HashFileParser):
                 # iterate through the existed LocalVars and try to resolve the symbols
                 for var in self.LocalVars:
                     self.LocalVars[var] = self.ReplaceVariables(self.LocalVars[var])
-                return (line_resolved, [])
-        else:
-            return (line_resolved, [])
+        return (line_resolved, [])
 
     def ParseInfPathLib(self, line: str) -> str:
         """Parses a line with an INF path Lib."""
-- 
2.43.0


From b6c4e10ec27fa7cedad9adea5bba1c55516d6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 023/160] fix: macros of an FDF [Defines] section are undefined
 within that section

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 1e5ae85..cf777f7 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -132,6 +132,7 @@ class FdfParser(HashFileParser):
                 if sline.count("=") == 1:
                     tokens = re.sub(r"^\s*DEFINE\s", "", sline).split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
+                    self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
-- 
2.43.0


From 3cbdefe4c88c03a5aaef60899bca79048da2dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 024/160] fix: an FD section named like an earlier FV is not
 recorded

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index cf777f7..4b8b4ca 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -145,7 +145,7 @@ class FdfParser(HashFileParser):
 
             elif InFdSection:
                 for section in self.CurrentSection:
-                    if section not in self.FVs:
+                    if section not in self.FDs:
                         self.FDs[section] = {"Dict": {}}
                         # TODO finish the FD section
                 continue
-- 
2.43.0


From 88e86424121d81ac4b983eeb70831e34564d4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 025/160] fix: an FDF with about 1000 consecutive blank,
 comment or inactive lines fails with a RecursionError

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 32 ++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 4b8b4ca..92872a5 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -45,27 +45,27 @@ class FdfParser(HashFileParser):
         Performs manipulation on the line like replacing variables,
         processing conditionals, etc.
         """
-        if len(self.Lines) == 0:
-            return None
+        while len(self.Lines) > 0:
+            line = self.Lines.pop()
+            self.CurrentLine += 1
+            sline = self.StripComment(line)
 
-        line = self.Lines.pop()
-        self.CurrentLine += 1
-        sline = self.StripComment(line)
+            if sline is None or len(sline) < 1:
+                continue
 
-        if sline is None or len(sline) < 1:
-            return self.GetNextLine()
+            sline = self.ReplaceVariables(sline)
+            if self.ProcessConditional(sline):
+                # was a conditional so skip
+                continue
+            if not self.InActiveCode():
+                continue
 
-        sline = self.ReplaceVariables(sline)
-        if self.ProcessConditional(sline):
-            # was a conditional so skip
-            return self.GetNextLine()
-        if not self.InActiveCode():
-            return self.GetNextLine()
+            self._BracketCount += sline.count("{")
+            self._BracketCount -= sline.count("}")
 
-        self._BracketCount += sline.count("{")
-        self._BracketCount -= sline.count("}")
+            return sline
 
-        return sline
+        return None
 
     def InsertLinesFromFile(self, file_path: str) -> None:
         """Adds additional lines to the Lines Attribute from the provided file."""
-- 
2.43.0


From 5da6ea172a9ab6cb674cea14776059c622d32328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 026/160] fix: an !include within a FILE block of an FDF is
 ignored

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 92872a5..fcbe8c3 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -60,6 +60,16 @@ class FdfParser(HashFileParser):
             if not self.InActiveCode():
                 continue
 
+            if sline.lower().startswith("!include"):
+                tokens = sline.split()
+                include_file = tokens[1]
+                sp = self.FindPath(include_file)
+                if sp is None:
+                    raise FileNotFoundError(include_file)
+                self.Logger.debug("Opening Include File %s" % sp)
+                self.InsertLinesFromFile(sp)
+                continue
+
             self._BracketCount += sline.count("{")
             self._BracketCount -= sline.count("}")
 
@@ -103,16 +113,6 @@ class FdfParser(HashFileParser):
             if sline is None:
                 break
 
-            if sline.lower().startswith("!include"):
-                tokens = sline.split()
-                include_file = tokens[1]
-                sp = self.FindPath(include_file)
-                if sp is None:
-                    raise FileNotFoundError(include_file)
-                self.Logger.debug("Opening Include File %s" % sp)
-                self.InsertLinesFromFile(sp)
-                continue
-
             if sline.strip().startswith("[") and sline.strip().endswith("]"):  # if we're starting a new section
                 # this basically gets what's after the . or if it doesn't have a period
                 # the whole thing for every comma separated item in sline
-- 
2.43.0


From 37fd60c49b51424780e0b7bcd7e85731080ffcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 027/160] fix: an override line without ':' fails with an
 IndexError, one with a second ':' is refused

---
 edk2toollib/uefi/edk2/parsers/override_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/override_parser.py b/edk2toollib/uefi/edk2/parsers/override_parser.py
index 3202b71..b8a6951 100644
--- a/edk2toollib/uefi/edk2/parsers/override_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/override_parser.py
@@ -138,8 +138,7 @@ class OverrideParser(object):
         # Split the override string into pieces.
         # First the #OVERRIDE, which is separated by a :.
         # Then everything else by |.
-        line_parts = line_contents.split(":")
-        line_parts = [part.strip() for part in line_parts[1].split("|")]
+        line_parts = [part.strip() for part in line_contents.partition(":")[2].split("|")]
 
         # Step 1: Check version and number of blocks in this entry
         try:
-- 
2.43.0


From f2316250e8455838ea5a0605960675082b853e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 028/160] fix: package GUIDs in the GUID list keep the case of
 the DEC file, unlike all other GUIDs

---
 edk2toollib/uefi/edk2/guid_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/guid_list.py b/edk2toollib/uefi/edk2/guid_list.py
index 67265ff..379168f 100644
--- a/edk2toollib/uefi/edk2/guid_list.py
+++ b/edk2toollib/uefi/edk2/guid_list.py
@@ -116,7 +116,7 @@ class GuidList:
             results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
 
         try:
-            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"], filename))
+            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"].upper(), filename))
         except Exception:
             logging.warning("Failed to find Package Guid from dec file: " + filename)
         return results
-- 
2.43.0


From ee36c5fd74a290ef2f656ec5bf67b530df0cae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 029/160] fix: the sections of a dsc_dict cannot be iterated,
 so a DSC is written without them

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index f9114e5..10b3607 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -90,7 +90,7 @@ class dsc_dict(collections.OrderedDict):
         if key in self:
             # NEXTVER merge these together?
             raise ValueError(f"Cannot add section {key} since it already exists")
-        dict.__setitem__(self, key, val)
+        super().__setitem__(key, val)
 
 
 class dsc:
-- 
2.43.0


From 9ddc574b14fe4b3958259bc0d176daec619b8c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 030/160] fix: adding a SKU whose id and name collide with two
 others loses it

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 10b3607..3012a93 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -31,7 +31,7 @@ class dsc_set(set):
         """
         if len(self._allowed_classes) > 0 and type(item) not in self._allowed_classes:
             raise ValueError(f"Cannot add {type(item)} to restricted set: {self._allowed_classes}")
-        if item in self:
+        while item in self:  # several may be equal to a SKU, one by id and one by name
             super().discard(item)
             # NEXTVER: get add the old_item to item
         super().add(item)
-- 
2.43.0


From 34382f10cf307834ea69ac31e3c2103f29125c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 031/160] fix: library classes that differ in case are equal
 but hash differently

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 3012a93..5239ced 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -524,7 +524,7 @@ class library_class:
         if self.libraryclass.lower() == "null":
             return hash(self.inf)
         else:
-            return hash(self.libraryclass)
+            return hash(self.libraryclass.lower())
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From 5a2b3d486d354d61a2f2280bece062aa80c9affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 032/160] fix: DSC sections are equal when only the
 architecture or the module type matches

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 5239ced..d9bdebb 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -209,7 +209,7 @@ class dsc_section_type:
             return False
         arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
         arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
-        return self.module_type == other.module_type or arch == arch2
+        return self.module_type == other.module_type and arch == arch2
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From f399a4946adeb9d228b699a8d516e53e75287e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 033/160] fix: build option sections of different architectures
 are equal but hash differently

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index d9bdebb..cafe682 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -268,9 +268,9 @@ class dsc_buildoption_section_type(dsc_section_type):
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_buildoption_section_type:
             return False
-        if not (other.module_type == self.module_type and other.codebase == self.codebase):
-            return False
-        return other.module_type == self.module_type
+        arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
+        arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
+        return arch == arch2 and other.module_type == self.module_type and other.codebase == self.codebase
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From 5e8eac806305651a91d5ebe99f4f8daab1155092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 034/160] fix: PCD sections of different SKUs or default stores
 are taken for the same section

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index cafe682..bebab4d 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -317,7 +317,7 @@ class dsc_pcd_section_type:
 
     def __hash__(self) -> int:
         """Returns the hash of an object for hashtables."""
-        return hash((self.arch, self.pcd_type))
+        return hash((self.arch, self.pcd_type, self.sku, self.default_store))
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -328,6 +328,8 @@ class dsc_pcd_section_type:
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_pcd_section_type:
             return False
+        if self.sku != other.sku or self.default_store != other.default_store:
+            return False
         return self.pcd_type == other.pcd_type and self.arch == other.arch
 
 
-- 
2.43.0


From 9bdcca21e9582eec3c5e943b4b99499775a6afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 035/160] fix: build option sections are written without the
 dot before the architecture

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 72b7ad3..9995ecb 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -73,7 +73,7 @@ class DscTranslator:
             # Then Build Options
             print(obj.build_options.items())
             for header, x in obj.build_options.items():
-                lines.append(f"{depth_pad}[BuildOptions{header}]")
+                lines.append(f"{depth_pad}[BuildOptions.{header}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
         elif type(obj) is sku_id:
-- 
2.43.0


From 88adaa052d7eb1b867a4f72c1ddc2ce141fcca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 036/160] fix: build options that replace the default are
 written as appending ones

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 9995ecb..edf67b5 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -111,7 +111,7 @@ class DscTranslator:
         elif type(obj) is build_option:
             rep = depth_pad if obj.family is None else f"{depth_pad}{obj.family}:"
             rep += "_".join((obj.target, obj.tagname, obj.arch, obj.tool_code, obj.attribute))
-            rep += f"= {obj.data}"
+            rep += f"{'==' if obj.replace else '='} {obj.data}"
             lines.append(rep)
         else:
             logging.warning(f"UNKNOWN OBJECT {obj}")
-- 
2.43.0


From dbc4295d61d72a93a868b273455f468c55286230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 037/160] fix: sections for all module types are written with a
 scope that is not recognised when read back

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index edf67b5..153b840 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -57,12 +57,12 @@ class DscTranslator:
 
             # Third, library classes
             for header, x in obj.library_classes.items():
-                lines.append(f"{depth_pad}[LibraryClasses{header}]")
+                lines.append(f"{depth_pad}[LibraryClasses{str(header).removesuffix('.COMMON')}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
             # Next do the components
             for header, x in obj.components.items():
-                lines.append(f"{depth_pad}[Components{header}]")
+                lines.append(f"{depth_pad}[Components{str(header).removesuffix('.COMMON')}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
             # Then PCD's
-- 
2.43.0


From 7e61ea24851e969c9c625305253abd6c4a052666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 038/160] fix: the default stores of a DSC are not written

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 153b840..d593f3b 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -11,6 +11,7 @@ import os
 from edk2toollib.uefi.edk2.build_objects.dsc import (
     build_option,
     component,
+    default_store,
     definition,
     dsc,
     dsc_set,
@@ -55,6 +56,10 @@ class DscTranslator:
             for x in obj.skus:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
+            if len(obj.default_stores) > 0:
+                lines.append(f"{depth_pad}[DefaultStores]")
+                lines += cls._GetDscLinesFromDscObj(obj.default_stores, depth)
+
             # Third, library classes
             for header, x in obj.library_classes.items():
                 lines.append(f"{depth_pad}[LibraryClasses{str(header).removesuffix('.COMMON')}]")
@@ -78,6 +83,8 @@ class DscTranslator:
 
         elif type(obj) is sku_id:
             lines.append(f"{depth_pad}{obj.id}|{obj.name}|{obj.parent}")
+        elif type(obj) is default_store:
+            lines.append(f"{depth_pad}{obj.index}|{obj.value}")
         elif type(obj) is library_class:
             lines.append(f"{depth_pad}{obj.libraryclass}|{obj.inf}")
         elif type(obj) is definition:
-- 
2.43.0


From 94c6e9625dbd55fe89bb552c362ee1024408f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 039/160] fix: overridden and NULL library instances keep a
 path that is not relative to the closest package path

---
 edk2toollib/database/tables/instanced_inf_table.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 4e0a81b..6feb580 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -231,7 +231,7 @@ class InstancedInfTable(TableGenerator):
         #
         if inf == component:
             for null_lib in override_dict["NULL"]:
-                library_instance_list.append(null_lib)
+                library_instance_list.append(self._closest_path(null_lib))
                 library_class_list.append("NULL")
 
             for null_lib in self._get_null_lib_instances(scope, library_dict):
@@ -304,7 +304,7 @@ class InstancedInfTable(TableGenerator):
         # 1. If a Library class instance (INF) is specified in the Edk2 II [Components] section (an override),
         #    and the library supports the module, then it will be used.
         if library_class_name in override_dict:
-            return override_dict[library_class_name]
+            return self._closest_path(override_dict[library_class_name])
 
         # 2/3. If the Library Class instance (INF) is defined in the [LibraryClasses.$(ARCH).$(MODULE_TYPE)] section,
         #      and the library supports the module, then it will be used.
@@ -393,4 +393,9 @@ class InstancedInfTable(TableGenerator):
         lookup = "common.null"
         null_libs.extend(library_dict.get(lookup, []))
 
-        return null_libs
+        return [self._closest_path(null_lib) for null_lib in null_libs]
+
+    def _closest_path(self, inf: str) -> str:
+        """Converts an INF path relative to any package path to the one relative to the closest package path."""
+        full_inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+        return self.pathobj.GetEdk2RelativePathFromAbsolutePath(full_inf) if full_inf else inf
-- 
2.43.0


From 4631792f9b828ed5d96149067ceed99aa77eefd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 040/160] fix: a library used under two classes is linked under
 the first one only

---
 edk2toollib/database/tables/instanced_inf_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 6feb580..926b184 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -138,12 +138,12 @@ class InstancedInfTable(TableGenerator):
         session.commit()
 
         all_libraries = {
-            (library.path, library.arch, library.cls, library.component): library
+            (library.path, library.arch, library.component): library
             for library in session.query(InstancedInf).filter_by(env=env_id).all()
         }
         # Link all instanced INF rows to their used libraries
         for row, inf in zip(rows, filtered_inf_entries):
-            libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
+            libraries = [all_libraries.get((path, row.arch, row.component)) for _, path in inf["LIBRARIES_USED"]]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
         session.commit()
-- 
2.43.0


From ed237064daaaeceff1641b9be6797aac69aeecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 041/160] fix: components without an architecture do not find
 the library instances of their architecture

---
 edk2toollib/database/tables/instanced_inf_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 926b184..4981f50 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -182,7 +182,7 @@ class InstancedInfTable(TableGenerator):
 
             # scope for libraries need to contain the MODULE_TYPE also, so we will append it, if it exists
             if "MODULE_TYPE" in infp.Dict:
-                scope += f".{infp.Dict['MODULE_TYPE']}".lower()
+                scope = f"{scope}.{infp.Dict['MODULE_TYPE']}".lower()
 
             inf_entries += self._parse_inf_recursively(inf, None, inf, dscp.ScopedLibraryDict, overrides, scope, [])
 
-- 
2.43.0


From f9526f1bb2c168c834a42d0003876ea717622913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 042/160] fix: the licence and line count of a source already
 in the database are not updated

---
 edk2toollib/database/tables/source_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index cb59b53..444594e 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -62,6 +62,8 @@ class SourceTable(TableGenerator):
                 to_add.append(source)
             else:
                 to_add.append(existing_source[source.path])
+                to_add[-1].license = source.license
+                to_add[-1].total_lines = source.total_lines
                 to_add[-1].code_lines = source.code_lines
                 to_add[-1].comment_lines = source.comment_lines
                 to_add[-1].blank_lines = source.blank_lines
-- 
2.43.0


From bb75998ef0a7550090dacae5143be2b53b7fda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 043/160] fix: a directory named like a module file ends the
 workspace scan with an IsADirectoryError

---
 edk2toollib/database/tables/inf_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/inf_table.py b/edk2toollib/database/tables/inf_table.py
index 2747ac8..3b5b453 100644
--- a/edk2toollib/database/tables/inf_table.py
+++ b/edk2toollib/database/tables/inf_table.py
@@ -44,7 +44,7 @@ class InfTable(TableGenerator):
 
         start = time.time()
         files = list(ws.glob("**/*.inf"))
-        files = [file for file in files if not file.is_relative_to(ws / "Build")]
+        files = [file for file in files if file.is_file() and not file.is_relative_to(ws / "Build")]
         inf_entries = Parallel(n_jobs=self.n_jobs)(delayed(self._parse_file)(fname, pathobj) for fname in files)
 
         all_inf = {inf.path: inf for inf in session.query(Inf).all()}
-- 
2.43.0


From fc0cef3148a3f8c4dad6d65df01706a44b65396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 044/160] fix: the environment of a workspace whose repository
 has no commit yet cannot be recorded

---
 edk2toollib/database/tables/environment_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/environment_table.py b/edk2toollib/database/tables/environment_table.py
index c617bac..5648fb3 100644
--- a/edk2toollib/database/tables/environment_table.py
+++ b/edk2toollib/database/tables/environment_table.py
@@ -29,7 +29,7 @@ class EnvironmentTable(TableGenerator):
 
         try:
             version = git.Repo(pathobj.WorkspacePath).head.commit.hexsha
-        except git.InvalidGitRepositoryError:
+        except (git.InvalidGitRepositoryError, ValueError):  # No repository, or one without commits
             version = "UNKNOWN"
 
         entry = Environment(
-- 
2.43.0


From bac19a1b57fa0faf76ce1eeea561072b6a94b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 045/160] fix: repositories whose name contains .git or whose
 URL ends in a slash get a wrong or empty name

---
 edk2toollib/database/tables/package_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8d461e1..5e255a6 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -35,9 +35,9 @@ class PackageTable(TableGenerator):
     def get_repo_name(repo: git.Repo) -> str:
         """Get the name of the repository."""
         if "origin" in repo.remotes:
-            return repo.remotes.origin.url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes.origin.url.rstrip("/").split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         elif len(repo.remotes) > 0:
-            return repo.remotes[0].url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes[0].url.rstrip("/").split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         return "BASE"
 
     def parse(self, session: Session, pathobj: Edk2Path, id: str, env: dict) -> None:
-- 
2.43.0


From 7cb00febb5807f4f05fd8a0f7be725d5aa5c76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 046/160] fix: packages next to a submodule whose name is a
 prefix of theirs are taken for part of it

---
 edk2toollib/database/tables/instanced_inf_table.py | 2 +-
 edk2toollib/database/tables/package_table.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 4981f50..f1b5690 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -112,7 +112,7 @@ class InstancedInfTable(TableGenerator):
                     """Return the Repository that contains the INF file."""
                     if repo.path is None:
                         return False
-                    return Path(self.pathobj.WorkspacePath, repo.path).as_posix() in Path(e["FULL_PATH"]).as_posix()
+                    return Path(e["FULL_PATH"]).is_relative_to(Path(self.pathobj.WorkspacePath, repo.path))
 
                 repo = next(
                     filter(filter_search, all_repos.values()),
diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 5e255a6..7471d16 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -57,7 +57,7 @@ class PackageTable(TableGenerator):
             repo_path = None
 
             for submodule in repo.submodules:
-                if submodule.abspath in str(file):
+                if file.is_relative_to(submodule.abspath):
                     containing_repo = submodule.name
                     repo_path = submodule.path
                     break
-- 
2.43.0


From 2df2f55363c0c307282307be1f8bbda2835d8aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 047/160] fix: a second parse of the instanced INF table uses
 the INFs as they were at the first one

---
 edk2toollib/database/tables/instanced_inf_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index f1b5690..61767de 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -47,6 +47,7 @@ class InstancedInfTable(TableGenerator):
 
     def parse(self, session: Session, pathobj: Edk2Path, env_id: str, env: dict) -> None:
         """Parse the workspace and update the database."""
+        self._parsed_infs = {}
         self.pathobj = pathobj
         self.ws = Path(self.pathobj.WorkspacePath)
         self.env = env
-- 
2.43.0


From e262859e445f941894d3592823aa15426c228e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 048/160] fix: FMP capsule header counts are not doubled by
 Decode

---
 edk2toollib/uefi/fmp_capsule_header.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 31ceee8..b046bdb 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -294,8 +294,8 @@ class FmpCapsuleHeaderClass(object):
             raise ValueError
 
         self.Version = Version
-        self.EmbeddedDriverCount = EmbeddedDriverCount
-        self.PayloadItemCount = PayloadItemCount
+        self.EmbeddedDriverCount = 0
+        self.PayloadItemCount = 0
         self._EmbeddedDriverList = []
         self._FmpCapsuleImageHeaderList = []
 
-- 
2.43.0


From d372f6ce181b799f7bd1846da28a55a0b1d103a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 049/160] fix: capsule and FMP payload headers larger than
 their structure survive Encode

---
 edk2toollib/uefi/edk2/fmp_payload_header.py |  9 +++++++--
 edk2toollib/uefi/uefi_capsule_header.py     | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index c384857..f279b4e 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -48,6 +48,7 @@ class FmpPayloadHeaderClass(object):
         self.HeaderSize = self._StructSize
         self.FwVersion = 0x00000000
         self.LowestSupportedVersion = 0x00000000
+        self._ExtendedHeader = b""
         self.Payload = b""
 
     def Encode(self) -> bytes:
@@ -59,7 +60,10 @@ class FmpPayloadHeaderClass(object):
         FmpPayloadHeader = struct.pack(
             self._StructFormat, self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion
         )
-        return FmpPayloadHeader + self.Payload
+        # The header may be larger than the structure; keep the payload at HeaderSize.
+        ExtendedSize = max(self.HeaderSize - self._StructSize, 0)
+        ExtendedHeader = self._ExtendedHeader[:ExtendedSize].ljust(ExtendedSize, b"\x00")
+        return FmpPayloadHeader + ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: bytes) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -82,12 +86,13 @@ class FmpPayloadHeaderClass(object):
         )
         if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE:
             raise ValueError
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         self.Signature = Signature
         self.HeaderSize = HeaderSize
         self.FwVersion = FwVersion
         self.LowestSupportedVersion = LowestSupportedVersion
+        self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
 
         return self.Payload
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4699798..8de94d7 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -61,6 +61,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = False
         self.InitiateReset = False
         self.CapsuleImageSize = self.HeaderSize
+        self._ExtendedHeader = b""
         self.Payload = b""
         self.FmpCapsuleHeader = None
 
@@ -84,11 +85,15 @@ class UefiCapsuleHeaderClass(object):
 
         self.CapsuleImageSize = self.HeaderSize + len(self.Payload)
 
+        # The header may be larger than the structure; keep the payload at HeaderSize.
+        ExtendedSize = max(self.HeaderSize - self._StructSize, 0)
+        ExtendedHeader = self._ExtendedHeader[:ExtendedSize].ljust(ExtendedSize, b"\x00")
+
         UefiCapsuleHeader = struct.pack(
             self._StructFormat, self.CapsuleGuid.bytes_le, self.HeaderSize, Flags, self.CapsuleImageSize, 0
         )
 
-        return UefiCapsuleHeader + self.Payload
+        return UefiCapsuleHeader + ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: BytesIO) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -109,7 +114,7 @@ class UefiCapsuleHeaderClass(object):
         (CapsuleGuid, HeaderSize, Flags, CapsuleImageSize, Reserved) = struct.unpack(
             self._StructFormat, Buffer[0 : self._StructSize]
         )
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         if CapsuleImageSize != len(Buffer):
             raise ValueError
@@ -120,6 +125,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = (Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE) != 0
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
+        self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
-- 
2.43.0


From 1210799780d138e8c518a187d56a275c069ca11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 050/160] fix: capsule objects drop the previous nested header
 when decoding again

---
 edk2toollib/uefi/fmp_auth_header.py     | 1 +
 edk2toollib/uefi/fmp_capsule_header.py  | 1 +
 edk2toollib/uefi/uefi_capsule_header.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index baf271e..c8eb3ba 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -77,6 +77,7 @@ class FmpAuthHeaderClass(object):
         self.MonotonicCount = MonotonicCount
 
         self.Payload = self.AuthInfo.Decode(Buffer[self._MonotonicCountSize :])
+        self.FmpPayloadHeader = None
         if len(self.Payload) > 0:
             self.FmpPayloadHeader = FmpPayloadHeaderClass()
             self.FmpPayloadHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index b046bdb..69a1c73 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -132,6 +132,7 @@ class FmpCapsuleImageHeaderClass(object):
         self.UpdateVendorCodeSize = UpdateVendorCodeSize
         self.UpdateHardwareInstance = UpdateHardwareInstance
         self.Payload = Buffer[self._StructSize : self._StructSize + UpdateImageSize]
+        self.FmpAuthHeader = None
         if len(self.Payload) > 0:
             self.FmpAuthHeader = FmpAuthHeaderClass()
             self.FmpAuthHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 8de94d7..852fe00 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -127,6 +127,7 @@ class UefiCapsuleHeaderClass(object):
         self.CapsuleImageSize = CapsuleImageSize
         self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
+        self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
             self.FmpCapsuleHeader.Decode(self.Payload)
-- 
2.43.0


From 07ce6cb15670fe02cab7684ceb2115d6c9174892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 051/160] fix: FmpAuthHeaderClass.IsSigned recognises PKCS7
 certificates

---
 edk2toollib/uefi/fmp_auth_header.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index c8eb3ba..cd5b0f7 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -94,10 +94,11 @@ class FmpAuthHeaderClass(object):
         if len(Buffer) < self._MonotonicCountSize:
             return False
 
-        auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
-        if auth_info.CertType != WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID.bytes_le:
+        try:
+            auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
+        except ValueError:
             return False
-        return True
+        return auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
 
     def DumpInfo(self) -> None:
         """Prints object to console."""
-- 
2.43.0


From 10883b656d8e5a922a1d38fad58570a2676808ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 052/160] fix: a truncated WIN_CERTIFICATE_UEFI_GUID is
 rejected

---
 edk2toollib/uefi/wincert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 791275e..dd07abf 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -408,7 +408,7 @@ class WinCertUefiGuid(object):
         (dwLength, wRevision, wCertificateType, cert_type) = struct.unpack(
             self._StructFormat, buffer[0 : self._StructSize]
         )
-        if dwLength < self._StructSize:
+        if dwLength < self._StructSize or dwLength > len(buffer):
             raise ValueError
         if wRevision != WinCert.REVISION:
             raise ValueError
-- 
2.43.0


From 37e45e5654bfaedd76244a2965147200c8dcaf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 053/160] fix: EfiTime.from_binary accepts data following the
 timestamp

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 43a5cc0..5807585 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1221,7 +1221,7 @@ class EfiTime(CommonUefiStructure):
         if len(binary_data) < cls._struct_size:
             raise ValueError("BinaryData didn't contain enough data!")
 
-        timestamp = struct.unpack(EfiTime._struct_format, binary_data)
+        timestamp = struct.unpack(EfiTime._struct_format, binary_data[: cls._struct_size])
         timestamp = datetime.datetime(*(timestamp[:6] + tuple([timestamp[7] // 1000])))
         return cls(time=timestamp)
 
-- 
2.43.0


From 01dae9df09c8d995d130e54098ae044cebe79207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 054/160] fix: setting a payload drops the previous one even
 when the new one is empty

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 5807585..204017b 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1402,6 +1402,8 @@ class EfiVariableAuthentication2(CommonUefiStructure):
         end = fs.tell()
         fs.seek(start)
         self.payload_size = end - start
+        self.payload = None
+        self.sig_list_payload = None
         if self.payload_size == 0:
             logging.debug("No Payload for this EfiVariableAuthenticated2 Object")
             return
-- 
2.43.0


From a6c616188109633bb2e6e9272cbcf6703aae43c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 055/160] fix: a PKCS1 certificate length that does not cover
 the structure is rejected

---
 edk2toollib/uefi/wincert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index dd07abf..356bdd1 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -158,7 +158,7 @@ class WinCertPkcs1(object):
         self.hash_algorithm = uuid.UUID(bytes_le=fs.read(16))
         self.cert_data = None
 
-        if (end - fs.tell()) < 1:
+        if self.Hdr_dwLength <= WinCertPkcs1.STATIC_STRUCT_SIZE or (end - fs.tell()) < 1:
             raise ValueError("Invalid File stream. No data for signature cert data")
 
         if (end - fs.tell()) < (self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE):
-- 
2.43.0


From 66f3b228fbcefbd169c9328d67bcfe74d017ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 056/160] fix: an X.509 signature entry smaller than its owner
 field is rejected

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 204017b..ac6bc7a 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -183,7 +183,7 @@ class EfiSignatureDataEfiCertX509(CommonUefiStructure):
         if fs is None:
             raise ValueError("Invalid File Steam")
 
-        if decodesize == 0:
+        if decodesize < EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE:
             raise ValueError("Invalid Decode Size")
 
         # only populate from file stream those parts that are complete in the file stream
-- 
2.43.0


From aa973afa24ec867c436bbfd41d70a62d4e035c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 057/160] fix: signature lists without entries can be decoded
 and merged into

---
 .../uefi/authenticated_variables_structure_support.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index ac6bc7a..2827201 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -659,7 +659,9 @@ class EfiSignatureList(CommonUefiStructure):
         if self.signature_header_size > 0:
             self.signature_header = EfiSignatureHeader(fs, self.signature_header_size)
 
-        if ((self.signature_list_size - (fs.tell() - start)) % self.signature_size) != 0:
+        # A list without entries may also have no signature size
+        data_size = self.signature_list_size - (fs.tell() - start)
+        if data_size != 0 and (self.signature_size == 0 or data_size % self.signature_size != 0):
             raise Exception("Invalid Sig List.  Signature Data Array is not a valid size")
 
         self.signature_data_list = []
@@ -833,7 +835,7 @@ class EfiSignatureList(CommonUefiStructure):
         if not FixedSizeData:
             raise Exception("Can only merge EfiSignatureLists with fixed-size data elements")
 
-        if self.signature_data_list is None:
+        if not self.signature_data_list:
             self.signature_data_list = []
             self.signature_size = esl.signature_size
 
-- 
2.43.0


From f52c7a1db14aabbd57d1cd055b5509d1fb637323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 058/160] fix: computing the canonical signature database does
 not modify the database

---
 .../uefi/authenticated_variables_structure_support.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 2827201..c6a8a09 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1011,13 +1011,13 @@ class EfiSignatureDatabase(CommonUefiStructure):
         x509eslList = None
 
         for Esl in self.esl_list:
-            if Esl.signature_data_list is None:  # discard empty EfiSignatureLists
+            if not Esl.signature_data_list:  # discard empty EfiSignatureLists
                 continue
             if Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
                 if sha256esl is None:
-                    sha256esl = Esl  # initialize it
-                else:
-                    sha256esl.MergeSignatureList(Esl)
+                    # merge into a new list, the caller's lists are not to be modified
+                    sha256esl = EfiSignatureList(typeguid=Esl.signature_type)
+                sha256esl.MergeSignatureList(Esl)
             elif Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
                 if x509eslList is None:
                     x509eslList = [Esl]  # initialize it
-- 
2.43.0


From 3a88928612d7e944e2ad3ed7d96aa30f5d439670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 059/160] fix: certificates are deduplicated by content in the
 canonical signature database

---
 .../authenticated_variables_structure_support.py     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index c6a8a09..01827f7 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1040,14 +1040,18 @@ class EfiSignatureDatabase(CommonUefiStructure):
             duplicatesDb.esl_list.append(dupes)
 
         if x509eslList is not None:
-            x509eslList.sort(key=attrgetter("signature_data_list"))
+
+            def content(esl: EfiSignatureList) -> List[bytes]:
+                return [bytes(data.signature_data) for data in esl.signature_data_list]
+
+            x509eslList.sort(key=content)
+            previous = None
             for esl in x509eslList:
-                if not canonicalDb.esl_list:
-                    canonicalDb.esl_list.append(esl)
-                elif esl == canonicalDb.esl_list[-1]:
+                if previous is not None and content(esl) == content(previous):
                     duplicatesDb.esl_list.append(esl)
                 else:
                     canonicalDb.esl_list.append(esl)
+                    previous = esl
 
         return (canonicalDb, duplicatesDb)
 
-- 
2.43.0


From 3cefaa0df5af09781ba184ebc351befdd936ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 060/160] fix: updating a variable to an empty payload updates
 the digest and the variable

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 01827f7..ca7821a 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1500,7 +1500,7 @@ class EfiVariableAuthentication2Builder(object):
         # if provided with a payload, the serialized payload must be added to the Digest to be signed
         if not payload:
             logging.info("Empty payload")
-            return
+            payload = b""
 
         # convert the payload to a file stream for SetPayload
         if not hasattr(payload, "seek"):
-- 
2.43.0


From 74612af06fae0fbd628ec2446111a10ce1c669b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 061/160] fix: x.509 certificates can be given as additional
 certificates of a signed variable

---
 .../uefi/authenticated_variables_structure_support.py     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index ca7821a..5183dd0 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1556,14 +1556,16 @@ class EfiVariableAuthentication2Builder(object):
         )
 
         for i, cert in enumerate(additional_certificates):
+            # Accept certificates as documented as well as those of a PKCS#12 store
+            cert = getattr(cert, "certificate", cert)
             indents = indent * i
             logging.info("")
             logging.info("%sAdding Additional Certificate: ", indents)
-            logging.info("%sIssuer: %s", indents, cert.certificate.issuer)
-            logging.info("%sSubject: %s", indents, cert.certificate.subject)
+            logging.info("%sIssuer: %s", indents, cert.issuer)
+            logging.info("%sSubject: %s", indents, cert.subject)
 
             # Add the certificate for verification
-            self.signature_builder = self.signature_builder.add_certificate(cert.certificate)
+            self.signature_builder = self.signature_builder.add_certificate(cert)
 
     def finalize(self, omit_content_info: bool = True) -> EfiVariableAuthentication2:
         """Finalizes the signature and returns a EfiVariableAuthentication2.
-- 
2.43.0


From 1ac1f60271238d4bc74ab019fa4a2c91b9ae9f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 062/160] fix: a variable store header loaded again reports the
 type of the store it read last

---
 edk2toollib/uefi/edk2/variable_format.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 1b4ecb7..72909e8 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -81,8 +81,7 @@ class VariableStoreHeader(object):
         # Check one last thing.
         if self.Signature != EfiVariableGuid and self.Signature != EfiAuthenticatedVariableGuid:
             raise Exception("VarStore is of unknown type! %s" % self.Signature)
-        if self.Signature == EfiAuthenticatedVariableGuid:
-            self.Type = "AuthVar"
+        self.Type = "AuthVar" if self.Signature == EfiAuthenticatedVariableGuid else "Var"
 
         return self
 
-- 
2.43.0


From 992cd24013e89010b967a37b74b908edac9521d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 063/160] fix: variable records that are cut short are rejected

---
 edk2toollib/uefi/edk2/variable_format.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 72909e8..9527d1c 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -148,6 +148,10 @@ class VariableHeader(object):
         if self.StartId != VARIABLE_DATA:
             raise EOFError("No variable data!")
 
+        # A record that is cut short is not a variable.
+        if len(in_bytes) < self.get_buffer_data_size():
+            raise ValueError("Variable name or data is cut short!")
+
         # Finally, load the data.
         data_offset = self.StructSize
         self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16")
@@ -179,10 +183,16 @@ class VariableHeader(object):
             raise EOFError("No variable data!")
 
         # Finally, load the data.
-        self.Name = file.read(self.NameSize).decode("utf-16")[:-1]  # Strip the terminating char.
-        self.Data = file.read(self.DataSize)
-
+        name_bytes = file.read(self.NameSize)
+        data_bytes = file.read(self.DataSize)
         file.seek(orig_seek)
+
+        # A record that is cut short is not a variable.
+        if len(name_bytes) != self.NameSize or len(data_bytes) != self.DataSize:
+            raise ValueError("Variable name or data is cut short!")
+
+        self.Name = name_bytes.decode("utf-16")[:-1]  # Strip the terminating char.
+        self.Data = data_bytes
         return self
 
     def get_buffer_data_size(self) -> int:
-- 
2.43.0


From 65f343abf5182eb8d167f005662f4d5759f0034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 064/160] fix: reading variables stops at the end of the
 variable store

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 82aaab4..b3ee5a8 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -61,10 +61,14 @@ class VariableStore(object):
 
         # Now we're finally ready to read some variables.
         self.variables = []
+        store_end = self.rom_file.tell() + self.var_store_header.Size
         self.rom_file.seek(self.var_store_header.StructSize, os.SEEK_CUR)
         try:
-            while True:
+            # A full store ends without a terminating variable header.
+            while self.rom_file.tell() + self.get_new_var_class().StructSize <= store_end:
                 new_var = self.get_new_var_class().load_from_file(self.rom_file)
+                if self.rom_file.tell() + new_var.get_buffer_data_size() > store_end:
+                    raise Exception("Variable '%s' extends beyond the end of the VarStore!" % new_var.Name)
 
                 # Seek past the current variable in the store.
                 self.rom_file.seek(new_var.get_buffer_size(), os.SEEK_CUR)
-- 
2.43.0


From 60e9dc3d931ba97011b170e22d95f2ffecb60c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 065/160] fix: variables that would be written past the end of
 the variable store are refused

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index b3ee5a8..b88c53d 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -108,7 +108,9 @@ class VariableStore(object):
     def flush_to_file(self) -> None:
         """Flush the changes to file."""
         # First, we need to make sure that our variables will fit in the VarStore.
-        var_size = sum([var.get_buffer_size() for var in self.variables])
+        # The size of the VarStore includes its own header.
+        var_size = self.var_store_header.StructSize
+        var_size += sum([var.get_buffer_size() for var in self.variables])
         # Add the terminating var header.
         dummy_var = self.get_new_var_class()
         var_size += dummy_var.StructSize
-- 
2.43.0


From f72cb2356ccf1a06ac4477dfa4cc69cef4971a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 066/160] fix: variable policies that are cut short or have
 inconsistent sizes are rejected

---
 edk2toollib/uefi/edk2/variable_policy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 5843a93..7d39932 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -224,6 +224,8 @@ class VariablePolicyEntry(object):
             raise ValueError("Unknown structure version!")
         if self.LockPolicyType not in VariablePolicyEntry.LOCK_POLICY_STRING_MAP:
             raise ValueError("Unknown LockPolicyType!")
+        if not self._HdrStructSize <= self.OffsetToName <= self.Size <= len(buffer):
+            raise ValueError("Invalid structure size!")
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
-- 
2.43.0


From 0cdf26860cb2a8cc0063ec84d1baaf093795bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 067/160] fix: a variable policy decoded again does not keep
 the name or lock policy it held before

---
 edk2toollib/uefi/edk2/variable_policy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 7d39932..312a3df 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -229,9 +229,11 @@ class VariablePolicyEntry(object):
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
+        self.Name = None
         if self.OffsetToName != self.Size:
             self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
 
+        self.LockPolicy = None
         if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
             self.LockPolicy = VariableLockOnVarStatePolicy()
             self.LockPolicy.decode(buffer[self._HdrStructSize : self.OffsetToName])
-- 
2.43.0


From 18f648f2b929a1382e192c77fc5dc090bb02af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 068/160] fix: PC Card device path nodes can be decoded

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 508b54d..e69982f 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -312,7 +312,7 @@ class PccardDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "PccardDevicePath":
-        function_number = struct.unpack("<B", header.data[:1])[0]
+        function_number = struct.unpack("<B", header.dev_data[:1])[0]
         return cls(header, function_number)
 
 
-- 
2.43.0


From 8fc8b667c3e3ac814bdf1b81ffeeba54841f52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 069/160] fix: device path nodes of an unknown type are kept as
 unimplemented nodes

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index e69982f..9e499f1 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -963,7 +963,7 @@ DEVICE_PATH_TYPES = defaultdict(
 # Change function to DevicePath Implementation to begin decoding.
 # __dict__() will be called to add the device path to the parent dictionary
 DEVICE_PATH_SUBTYPES = defaultdict(
-    lambda: {NOT_FOUND: ("NOT_FOUND!", UnimplementedDevicePath)},
+    lambda: defaultdict(lambda: ("NOT_FOUND!", UnimplementedDevicePath)),
     {
         HARDWARE_DEVICE_PATH: defaultdict(
             lambda: ("Unimplemented!", UnimplementedDevicePath),
-- 
2.43.0


From 1dc4349cdb24aa233af6f765497a9fa541050359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 070/160] fix: device path nodes shorter than their header or
 longer than the data are rejected

---
 edk2toollib/uefi/device_path.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 9e499f1..4e32128 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -1082,14 +1082,15 @@ class DevicePathFactory(object):
 
         while offset < len(binary):
             header = EfiDevicePathProtocol.decode(binary[offset:])
-            device_path_class = DevicePathFactory._find_implementation(header)
-            device_path = device_path_class.from_binary(header)
-            device_paths.append(device_path)
 
-            if header.dev_length == 0:
+            if not EfiDevicePathProtocol._dp_struct_size <= header.dev_length <= len(binary) - offset:
                 # dev_length is user controlled after all..
                 raise ValueError(f"Invalid Header Length: {header}")
 
+            device_path_class = DevicePathFactory._find_implementation(header)
+            device_path = device_path_class.from_binary(header)
+            device_paths.append(device_path)
+
             offset += header.dev_length
 
         return device_paths
-- 
2.43.0


From bf5b893fb0a8f254b420eeb8092e0ae0e5dd28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 071/160] fix: DMAR tables with impossible structure lengths
 are rejected instead of looping forever

---
 edk2toollib/acpi/dmar_parser.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 8633978..2515565 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -26,8 +26,12 @@ class DMARTable(object):
     RMRRHeaderLength = 24
     ASTRHeaderLength = 8
     ANDDHeaderLength = 8
+    RHSALength = 20
     DeviceScopeHeaderLength = 6
 
+    # Smallest length of each type of remapping struct
+    MinimumLengths = (DRDHHeaderLength, RMRRHeaderLength, ASTRHeaderLength, RHSALength, ANDDHeaderLength)
+
     def __init__(self, data: bytes) -> "DMARTable":
         """Inits the object."""
         self.dmar_table = self.AcpiTableHeader(data)
@@ -36,6 +40,8 @@ class DMARTable(object):
             # Get type and length of remapping struct
             remapping_header = self.RemappingStructHeader(self.data)
             assert remapping_header.Type < 5, "Reserved remapping struct found in DMAR table"
+            if not DMARTable.MinimumLengths[remapping_header.Type] <= remapping_header.Length <= len(self.data):
+                raise Exception("Invalid remapping struct length 0x%X in DMAR table" % remapping_header.Length)
 
             # Parse remapping struct
             if remapping_header.Type == 0:
@@ -208,7 +214,7 @@ class DMARTable(object):
 
             # Get Sub Structs
             self.DeviceScope = list()
-            header_byte_array = header_byte_array[DMARTable.DRDHHeaderLength :]
+            header_byte_array = header_byte_array[DMARTable.DRDHHeaderLength : self.Length]
             bytes_left = self.Length - DMARTable.DRDHHeaderLength
             while bytes_left > 0:
                 device_scope = DMARTable.DeviceScopeStruct(header_byte_array)
@@ -272,7 +278,7 @@ class DMARTable(object):
 
             # Get Sub Structs
             self.DeviceScope = list()
-            header_byte_array = header_byte_array[DMARTable.RMRRHeaderLength :]
+            header_byte_array = header_byte_array[DMARTable.RMRRHeaderLength : self.Length]
             bytes_left = self.Length - DMARTable.RMRRHeaderLength
             while bytes_left > 0:
                 device_scope = DMARTable.DeviceScopeStruct(header_byte_array)
@@ -346,7 +352,7 @@ class DMARTable(object):
 
             # Get Sub Structs
             self.DeviceScope = list()
-            header_byte_array = header_byte_array[DMARTable.ASTRHeaderLength :]
+            header_byte_array = header_byte_array[DMARTable.ASTRHeaderLength : self.Length]
             bytes_left = self.Length - DMARTable.ASTRHeaderLength
             while bytes_left > 0:
                 device_scope = DMARTable.DeviceScopeStruct(header_byte_array)
@@ -478,6 +484,11 @@ class DMARTable(object):
             )
 
             assert self.Type < 6, "Reserved Device Scope Type Found"
+            if (
+                not DMARTable.DeviceScopeHeaderLength <= self.Length <= len(header_byte_array)
+                or (self.Length - DMARTable.DeviceScopeHeaderLength) % 2 != 0
+            ):
+                raise Exception("Invalid Device Scope length 0x%X" % self.Length)
 
             if self.Type == 1:
                 self.TypeString = "PCI Endpoint Device"
-- 
2.43.0


From 295b1d0ebd97af7a4ac3cf3a1ffc989d8da451dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 072/160] fix: the XML of a DMAR table is well-formed

---
 edk2toollib/acpi/dmar_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 2515565..93a2224 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -68,7 +68,7 @@ class DMARTable(object):
 
     def toXml(self) -> ET.Element:
         """Converts the object to an xml representation."""
-        root = ET.Element("DMAR Table")
+        root = ET.Element("DMARTable")
         root.append(self.dmar_table.toXml())
         for sub in self.dmar_table.SubStructs:
             root.append(sub.toXml())
@@ -234,7 +234,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -307,7 +307,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -371,7 +371,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
-- 
2.43.0


From eaee9ac925052355504670a96d792e10c6ba8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 073/160] fix: an IVRS memory block for all peripherals clears
 the DMA remap flag of the table

---
 edk2toollib/acpi/ivrs_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index d6fa813..e88ddd2 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -65,8 +65,6 @@ class IVRS_TABLE(object):
             ):
                 remapping_header = self.IVMD_STRUCT(t_data[: IVRS_TABLE.IVMD_STRUCT.struct_format_size])
                 self.addIVMDEntry(remapping_header)
-                if remapping_header.Type == IVRS_TABLE.IVMD_STRUCT.IVMD_TYPE.TYPE_20H:
-                    self.IVRSBit = 0
             else:
                 print("Reserved remapping struct found in IVRS table %d" % remapping_header.Type)
                 sys.exit(-1)
@@ -137,6 +135,8 @@ class IVRS_TABLE(object):
         # IVMD has to follow the corresponding IVHD, thus the list records all entries to maintain order
         self.SubStructs.append(ivmd)
         self.IVMD_list.append(ivmd)
+        if ivmd.Type == IVRS_TABLE.IVMD_STRUCT.IVMD_TYPE.TYPE_20H:
+            self.acpi_header.IVRSBit = 0
         self.updateACPISum()
 
     def IVRSBitEnabled(self) -> bool:
-- 
2.43.0


From fbf1639441bdfdac31be8f9334cb89bb4552337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 074/160] fix: an IVRS table or hardware block decoded again
 does not keep the entries it held before

---
 edk2toollib/acpi/ivrs_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index e88ddd2..b09cbd3 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -32,6 +32,8 @@ class IVRS_TABLE(object):
     def Decode(self, data: bytes) -> None:
         """Loads data into the object from the header_byte_array."""
         self.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(data[: IVRS_TABLE.ACPI_TABLE_HEADER.struct_format_size])
+        self.SubStructs = list()
+        self.IVMD_list = list()
 
         # Start from the end of ACPI header, but store the parsed length for verification
         t_length = self.acpi_header.Length
@@ -304,6 +306,7 @@ class IVRS_TABLE(object):
             )
 
             self.Length = 0
+            self.DeviceTableEntries = list()
 
             if (self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_11H) or (
                 self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_40H
@@ -314,6 +317,7 @@ class IVRS_TABLE(object):
                     header_byte_array[IVRS_TABLE.IVHD_STRUCT.struct_format_size : ivhd_hdr_size],
                 )
             else:
+                self.IOMMUEFRImage = None
                 ivhd_hdr_size = IVRS_TABLE.IVHD_STRUCT.struct_format_size
 
             header_byte_array = header_byte_array[ivhd_hdr_size:]
-- 
2.43.0


From 0277a1ba2c0a069e64a44a4073f5ff2b2cb1ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 075/160] fix: the memory block length of an IVRS memory block
 is printed

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index b09cbd3..216b08c 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -512,7 +512,7 @@ class IVRS_TABLE(object):
             )
             print(
                 "\tIVMD Memory Block Length             : 0x{IVMDMemoryBlockLength:016X}".format(
-                    IVMDMemoryBlockLength=self.Type
+                    IVMDMemoryBlockLength=self.IVMDMemoryBlockLength
                 )
             )
 
-- 
2.43.0


From 4c496569f66b91d074df68a7a346ee098c050469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 076/160] fix: the XML of an IVRS ACPI device entry is
 well-formed

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index 216b08c..df5dabe 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -1271,7 +1271,7 @@ class IVRS_TABLE(object):
             xml_item.set("DTESetting", "0x%X" % (self.DTESetting))
 
             xml_item.set("HardwareID", "%s" % (self.HID))
-            xml_item.set("ExtendedDTE Setting", "%s" % (self.CID))
+            xml_item.set("ExtendedDTESetting", "%s" % (self.CID))
             xml_item.set("UniqueIDFormat", "%d" % (self.UIDFormat))
             xml_item.set("UniqueIDLength", "%d" % (self.UIDLength))
             if self.UIDFormat == 0:
-- 
2.43.0


From aee6de443bab310dd544dcf6d5ac1fb42efa1a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 077/160] fix: IVRS device select entries are not called
 reserved

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index df5dabe..9f10926 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -703,7 +703,7 @@ class IVRS_TABLE(object):
                     self.Type,
                 )
 
-            self.TypeString = "Reserved"
+            self.TypeString = "Select"
             self.Length = IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
-- 
2.43.0


From 302458e58ddbf53a9c52cc7e42fafb85e27493f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 078/160] fix: firmware policy strings outside the basic
 multilingual plane can be decoded

---
 edk2toollib/windows/policy/firmware_policy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4f1b473..1bb5a7d 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -368,9 +368,10 @@ class PolicyString:
         if fsOffset:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
-        LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = fs.read(StringLength)
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     @classmethod
@@ -386,9 +387,10 @@ class PolicyString:
         """
         StringLength = struct.unpack_from(cls.StringLengthFormat, b, bOffset)[0]
         bOffset += struct.calcsize(cls.StringLengthFormat)
-        LocalString = bytes.decode(b[bOffset : bOffset + StringLength], encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = b[bOffset : bOffset + StringLength]
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     def Print(self, prefix: str = "") -> None:
-- 
2.43.0


From 4717098f7d3d848081ee507a735c442be0cb4ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 079/160] fix: a firmware policy stream offset of zero is
 honoured

---
 edk2toollib/windows/policy/firmware_policy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 1bb5a7d..b3cbbc8 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -285,7 +285,7 @@ class PolicyValueType:
             fs (BinaryIO): filestream to read
             fsOffset (`int`, optional): offset to start reading from
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         valueType = struct.unpack(cls.StructFormat, fs.read(cls.StructSize))[0]
         return cls(valueType)
@@ -365,7 +365,7 @@ class PolicyString:
         Raises:
             (Exception): string length mismatch
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
         StringBytes = fs.read(StringLength)
@@ -447,7 +447,7 @@ class PolicyValue:
         Raises:
             (Exception): if STRICT is True, unsupported PolicyValueType
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         else:
             fsOffset = fs.tell()
-- 
2.43.0


From 825bc19e7684297d5922414c209b9744658cd3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 080/160] fix: a firmware policy rule that already exists is
 not added again

---
 edk2toollib/windows/policy/firmware_policy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index b3cbbc8..5610307 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -275,6 +275,10 @@ class PolicyValueType:
 
         self.vt = Type
 
+    def __eq__(self, other: "PolicyValueType") -> bool:
+        """Value types are equal if they have the same numeric type."""
+        return isinstance(other, PolicyValueType) and self.vt == other.vt
+
     @classmethod
     def FromFileStream(cls: "PolicyValueType", fs: BinaryIO, fsOffset: int = None) -> "PolicyValueType":
         """Load a Policy Value Type from a file stream.
@@ -354,6 +358,10 @@ class PolicyString:
             self.String = ""
         return
 
+    def __eq__(self, other: "PolicyString") -> bool:
+        """Policy strings are equal if they have the same text."""
+        return isinstance(other, PolicyString) and self.String == other.String
+
     @classmethod
     def FromFileStream(cls: "PolicyString", fs: BinaryIO, fsOffset: int = None) -> "PolicyString":
         """Inits a PolicyString from a file stream.
@@ -434,6 +442,10 @@ class PolicyValue:
         self.valueType = valueType
         self.value = value
 
+    def __eq__(self, other: "PolicyValue") -> bool:
+        """Policy values are equal if both their type and their value are."""
+        return isinstance(other, PolicyValue) and self.valueType == other.valueType and self.value == other.value
+
     @classmethod
     def FromFileStream(cls: "PolicyValue", fs: BinaryIO, fsOffset: int = None) -> "PolicyValue":
         """Load a Policy Value from a file stream.
-- 
2.43.0


From 6da545e0545c33abaf30b2259f44b50a741480ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 081/160] fix: a firmware policy whose device policy is not a
 number can be printed

---
 edk2toollib/windows/policy/firmware_policy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 5610307..bd8eb6e 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -921,6 +921,7 @@ class FirmwarePolicy(object):
                 rule.RootKey == self.FW_POLICY_ROOT_KEY
                 and rule.SubKeyName.String == self.FW_POLICY_SUB_KEY_NAME
                 and rule.ValueName.String == self.FW_POLICY_VALUE_NAME
+                and isinstance(rule.Value.value, int)
             ):
                 print(prefix + "  Device Policy:")
                 self.PrintDevicePolicy(devicePolicy=rule.Value.value, prefix=prefix)
-- 
2.43.0


From 8e75b4e17749b4565bc3f6b1eece8c4aca83b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 082/160] fix: an empty bitmap object can be created and
 written

---
 edk2toollib/uefi/bmp_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 70bdae1..4d08013 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -118,13 +118,13 @@ class BmpObject(object):
         """Inits an empty object or loads from filestream."""
         self.logger = logging.getLogger(__name__)
         if filestream is None:
-            self.CharB = "B"
-            self.CharM = "M"
-            self.Size = BmpObject.STATIC_STRUCT_SIZE
+            self.CharB = b"B"
+            self.CharM = b"M"
+            self.Size = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.Rsvd16_1 = 0
             self.Rsvd16_2 = 0
-            self.ImageOffset = BmpObject.STATIC_STRUCT_SIZE
-            self.HeaderSize = BmpObject.STATIC_STRUCT_SIZE
+            self.ImageOffset = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
+            self.HeaderSize = BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.PixelWidth = 0
             self.PixelHeight = 0
             self.Planes = 1
-- 
2.43.0


From c261958fc3dd06b0f9822e7954e71765f4dbeee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 083/160] fix: a bitmap with a gap before its pixel data can be
 written

---
 edk2toollib/uefi/bmp_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 4d08013..d85a7fc 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -142,7 +142,7 @@ class BmpObject(object):
             self.ColorMapList = []
         else:
             self.ImageData = None
-            self.Padding = None
+            self._Padding = None
             self._PaddingLength = 0
             self.ColorMapList = []
             self.PopulateFromFileStream(filestream)
@@ -331,7 +331,7 @@ class BmpObject(object):
 
         # padding
         if self._PaddingLength > 0:
-            fs.write(self.Padding)
+            fs.write(self._Padding)
 
         # Pixel data
         if self.ImageData:
-- 
2.43.0


From 2abc0ffdce13d2336710f60ed3e80ffd5eb86ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 084/160] fix: the colour map of a bitmap can be printed

---
 edk2toollib/uefi/bmp_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index d85a7fc..910b588 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -71,7 +71,7 @@ class BmpColorMap(object):
 
     def Print(self) -> None:
         """Logs the object."""
-        logger = logging.get(__name__)
+        logger = logging.getLogger(__name__)
         logger.info("BMP Color Map")
         logger.info("  Blue:           0x%X" % self.Blue)
         logger.info("  Green:          0x%X" % self.Green)
-- 
2.43.0


From 32ae0f0a59db3a605530c03eaaafe0ca7ab9c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 085/160] fix: re-reading a bitmap object drops the colour map
 and gap of the previous one

---
 edk2toollib/uefi/bmp_object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 910b588..05e02f6 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -217,6 +217,10 @@ class BmpObject(object):
                 % ((end - fs.tell()), (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE))
             )
 
+        self.ColorMapList = []
+        self._Padding = None
+        self._PaddingLength = 0
+
         StartOfImageData = offset + self.ImageOffset
         if fs.tell() < StartOfImageData:
             # Handle any color maps
-- 
2.43.0


From 126a09e3f39fe0a88547ae0b3774a0941e64070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 086/160] fix: a bitmap that is cut short or whose pixels start
 outside it is refused

---
 edk2toollib/uefi/bmp_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 05e02f6..a1c2186 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -211,11 +211,11 @@ class BmpObject(object):
         if self.Size < self.HeaderSize:
             raise Exception("Size can't be smaller than HeaderSize")
 
-        if (end - fs.tell()) < (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE):
-            raise Exception(
-                "Invalid file stream size (Size) 0x%X Less Than 0x%X"
-                % ((end - fs.tell()), (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE))
-            )
+        if (end - offset) < self.Size:
+            raise Exception("Invalid file stream size (Size) 0x%X Less Than 0x%X" % ((end - offset), self.Size))
+
+        if self.ImageOffset > self.Size:
+            raise Exception("ImageOffset can't be larger than Size")
 
         self.ColorMapList = []
         self._Padding = None
-- 
2.43.0


From 5176190f3490c57701a702d3c95330987df09e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 087/160] fix: the size of a TPM command stream follows changes
 of its elements

---
 edk2toollib/tpm/tpm2_stream.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_stream.py b/edk2toollib/tpm/tpm2_stream.py
index 002171e..224e657 100644
--- a/edk2toollib/tpm/tpm2_stream.py
+++ b/edk2toollib/tpm/tpm2_stream.py
@@ -116,19 +116,17 @@ class Tpm2CommandStream(object):
         """Inits a Tpm2 Command stream object."""
         super(Tpm2CommandStream, self).__init__()
         self.header = TPM2_COMMAND_HEADER(tag, size, code)
-        self.stream_size = self.header.get_size()
-        self.header.update_size(self.stream_size)
         self.stream_elements = []
+        self.header.update_size(self.get_size())
 
     def get_size(self) -> int:
         """Returns the stream size."""
-        return self.stream_size
+        return self.header.get_size() + sum(element.get_size() for element in self.stream_elements)
 
     def add_element(self, element: "Tpm2StreamElement") -> None:
         """Adds an element to the stream list."""
         self.stream_elements.append(element)
-        self.stream_size += element.get_size()
-        self.header.update_size(self.stream_size)
+        self.header.update_size(self.get_size())
 
     def get_stream(self) -> str:
         r"""Serializes the Header + elements.
@@ -136,4 +134,5 @@ class Tpm2CommandStream(object):
         Returns:
             (str): string representing packed data as bytes (i.e. b'\x01\x00\x03')
         """
+        self.header.update_size(self.get_size())
         return self.header.marshal() + b"".join(element.marshal() for element in self.stream_elements)
-- 
2.43.0


From 80727b35ee3bebb6d03dfdb2057e2e8bab22feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 088/160] fix: data can be exchanged with the TPM simulator on
 Python 3

---
 edk2toollib/tpm/tpm2_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index 3f494e5..ea4c0ba 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -65,13 +65,13 @@ class TpmSimulator(object):
 
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
-        print("RAW -->: " + str(data).encode("hex"))
+        print("RAW -->: " + bytes(data).hex())
         self.tpmSock.send(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
         data = self.tpmSock.recv(count)
-        print("RAW <--: " + str(data).encode("hex"))
+        print("RAW <--: " + data.hex())
         return data
 
     def send_data(self, data: str) -> bytes:
-- 
2.43.0


From c01be702eff275e32fe0c4c968f1c1d6a6c399b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 089/160] fix: a TPM simulator response that arrives in pieces
 is read completely

---
 edk2toollib/tpm/tpm2_simulator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index ea4c0ba..cfd0dd4 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -66,11 +66,16 @@ class TpmSimulator(object):
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
         print("RAW -->: " + bytes(data).hex())
-        self.tpmSock.send(data)
+        self.tpmSock.sendall(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
-        data = self.tpmSock.recv(count)
+        data = b""
+        while len(data) < count:
+            piece = self.tpmSock.recv(count - len(data))
+            if not piece:
+                raise ConnectionError("The TPM simulator closed the connection!")
+            data += piece
         print("RAW <--: " + data.hex())
         return data
 
-- 
2.43.0


From 5452a691ae7ea70e9424ed82223a576b07102f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 090/160] fix: INF names ending in a line break are refused

---
 edk2toollib/windows/capsule/inf_generator.py  |  2 +-
 edk2toollib/windows/capsule/inf_generator2.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 9f1d198..7e3a38f 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -149,7 +149,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): Invalid Characters in name
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             logging.critical("Name invalid: '%s'", value)
             raise ValueError("Name has invalid chars.")
         self._name = value
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 323577d..d1ecb7d 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -80,7 +80,7 @@ class InfHeader(object):
             (ValueError): Invalid chars in string
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Name has invalid chars.")
         self._name = value
 
@@ -204,7 +204,7 @@ class InfFirmware(object):
             (ValueError): Invalid character for a tag
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Tag has invalid chars.")
         self._tag = value
 
@@ -357,7 +357,7 @@ class InfSourceFiles(object):
             Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
-        if not (re.compile(r"[\.\w-]*$")).match(Filename):
+        if not (re.compile(r"[\.\w-]*")).fullmatch(Filename):
             raise ValueError("Filename has invalid chars.")
 
         if Filename not in self.Files:
@@ -403,7 +403,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not (re.compile(r"\w+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -418,7 +418,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not (re.compile(r"\w+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From 40e064b6e5058cf8ca7555cbd7ff22539a2a568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 091/160] fix: firmware whose INF tag has a hyphen can be added

---
 edk2toollib/windows/capsule/inf_generator2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index d1ecb7d..57b2948 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -402,8 +402,8 @@ class InfStrings(object):
             Value (str): the value of the localizable string as a string (e.g. "Firmware Manufacturer")
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
-        # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+")).fullmatch(Key):
+        # for simplicity, this just enforces that it must be a string that matches [\w-]+, like a firmware tag
+        if not (re.compile(r"[\w-]+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -417,8 +417,8 @@ class InfStrings(object):
             Value (str): the value of the non-localizable string as a string (e.g. "0x00010001")
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
-        # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+")).fullmatch(Key):
+        # for simplicity, this just enforces that it must be a string that matches [\w-]+, like a firmware tag
+        if not (re.compile(r"[\w-]+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From cf91e467598734469d10ca3dd477818f02e0d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 092/160] fix: INF firmware versions outside 32 bits are
 refused

---
 edk2toollib/windows/capsule/inf_generator.py  |  2 +-
 edk2toollib/windows/capsule/inf_generator2.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 7e3a38f..e6e3612 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -237,7 +237,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): hex does not fit in a 32but uint
         """
         a = int(value, 0)
-        if a > 0xFFFFFFFF:
+        if a < 0 or a > 0xFFFFFFFF:
             logging.critical("VersionHex invalid: '%s'", value)
             raise ValueError("VersionHex must fit within 32bit value range for unsigned integer")
         self._versionhex = a
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 57b2948..2231a82 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -226,8 +226,15 @@ class InfFirmware(object):
 
     @VersionInt.setter
     def VersionInt(self, value: int) -> None:
-        """Sets the VersionInt value from a string."""
-        self._version_int = int(value, base=0)
+        """Sets the VersionInt value from a string.
+
+        Raises:
+            (ValueError): version does not fit in a 32 bit uint
+        """
+        version = int(value, base=0)
+        if version < 0 or version > 0xFFFFFFFF:
+            raise ValueError("VersionInt must fit within 32bit value range for unsigned integer")
+        self._version_int = version
 
     def __str__(self) -> str:
         """Return the string representation of this InfFirmware object."""
-- 
2.43.0


From 1d64e5f471d54c60b8b5e104e10e76a7febfcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 093/160] fix: GUIDs given with braces or without hyphens are
 written to the INF in registry format

---
 edk2toollib/windows/capsule/inf_generator.py  | 4 +---
 edk2toollib/windows/capsule/inf_generator2.py | 5 ++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index e6e3612..4519550 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -202,9 +202,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         Raises:
             (Exception): Invalid value
         """
-        uuid.UUID(value)  # if this works it is valid...otherwise throws exception
-        # todo - make sure it is formatted exactly right
-        self._esrt_guid = value
+        self._esrt_guid = str(uuid.UUID(value))  # if this works it is valid...otherwise throws exception
 
     @property
     def VersionString(self) -> str:
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 2231a82..c4df7dc 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -215,9 +215,8 @@ class InfFirmware(object):
 
     @EsrtGuid.setter
     def EsrtGuid(self, value: uuid.UUID) -> None:
-        """Transforms string into actual guid object before setting."""
-        uuid.UUID(value)
-        self._esrt_guid = value
+        """Verifies a valid guid and formats it as the INF needs it before setting."""
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionInt(self) -> int:
-- 
2.43.0


From 0247e231bbfbe26bb29e788a4f5f9142f697e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 094/160] fix: spaces around the target OS version do not get
 into the INF

---
 edk2toollib/windows/capsule/inf_generator2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index c4df7dc..5a94698 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -65,7 +65,7 @@ class InfHeader(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Name(self) -> str:
@@ -304,7 +304,7 @@ class InfFirmwareSections(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Arch(self) -> str:
-- 
2.43.0


From 78cc8e0ed4666c6de042eee90a0ec77947c80313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 095/160] fix: a firmware refused for its integrity file leaves
 no source file in the INF

---
 edk2toollib/windows/capsule/inf_generator2.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 5a94698..4bdd712 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -184,9 +184,11 @@ class InfFirmware(object):
         self.EsrtGuid = EsrtGuid
         self.VersionInt = VersionInt
         self.FirmwareFile = FirmwareFile
-        InfSourceFiles.AddFile(FirmwareFile)
         self.Rollback = Rollback
         self.IntegrityFile = IntegrityFile
+        if self.IntegrityFile is not None:
+            InfSourceFiles.CheckFile(IntegrityFile)
+        InfSourceFiles.AddFile(FirmwareFile)
         if self.IntegrityFile is not None:
             InfSourceFiles.AddFile(IntegrityFile)
         InfStrings.AddNonLocalizableString("REG_DWORD", "0x00010001")
@@ -356,16 +358,26 @@ class InfSourceFiles(object):
         self.Files = []
         InfStrings.AddLocalizableString("DiskName", DiskName)
 
-    def AddFile(self, Filename: str) -> None:
-        """Adds a new file to this InfSourceFiles object.
+    def CheckFile(self, Filename: str) -> None:
+        """Verifies that a file can be added to this InfSourceFiles object.
 
         Args:
             Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
+
+        Raises:
+            (ValueError): Invalid chars in file name
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
         if not (re.compile(r"[\.\w-]*")).fullmatch(Filename):
             raise ValueError("Filename has invalid chars.")
 
+    def AddFile(self, Filename: str) -> None:
+        """Adds a new file to this InfSourceFiles object.
+
+        Args:
+            Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
+        """
+        self.CheckFile(Filename)
         if Filename not in self.Files:
             self.Files.append(Filename)
 
-- 
2.43.0


From 4490b73ce0dcc8dfeb045ccb69110b1508edfd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 096/160] fix: the text of an INF without firmware can be
 generated

---
 edk2toollib/windows/capsule/inf_generator2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 4bdd712..f92af39 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -443,12 +443,12 @@ class InfStrings(object):
     def __str__(self) -> str:
         """Return the string representation of this InfStrings object."""
         LocalizedStrings = ""
-        LongestKey = max(len(Key) for Key in self.LocalizableStrings.keys())
+        LongestKey = max((len(Key) for Key in self.LocalizableStrings.keys()), default=0)
         for Key, Value in self.LocalizableStrings.items():
             LocalizedStrings += '{0:{width}} = "{1}"\n'.format(Key, Value, width=LongestKey)
 
         NonLocalizedStrings = ""
-        LongestKey = max(len(Key) for Key in self.NonLocalizableStrings.keys())
+        LongestKey = max((len(Key) for Key in self.NonLocalizableStrings.keys()), default=0)
         for Key, Value in self.NonLocalizableStrings.items():
             NonLocalizedStrings += "{0:{width}} = {1}\n".format(Key, Value, width=LongestKey)
 
-- 
2.43.0


From 5a62d5bebb71c970717fb54b0aebd357a0719fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 097/160] fix: a CAT file can be made in the current folder

---
 edk2toollib/windows/capsule/cat_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/cat_generator.py b/edk2toollib/windows/capsule/cat_generator.py
index 698c364..b6a6140 100644
--- a/edk2toollib/windows/capsule/cat_generator.py
+++ b/edk2toollib/windows/capsule/cat_generator.py
@@ -119,7 +119,7 @@ class CatGenerator(object):
                 "https://developer.microsoft.com/en-us/windows/hardware/windows-driver-kit"
             )
 
-        OutputFolder = os.path.dirname(OutputCatFile)
+        OutputFolder = os.path.dirname(OutputCatFile) or None
         # Make Cat file
         cmd = "/driver:. /os:" + self.OperatingSystem + "_" + self.Arch + " /verbose /uselocaltime"
         ret = RunCmd(PathToInf2CatTool, cmd, workingdir=OutputFolder)
-- 
2.43.0


From ee4de7f570b8eb863bb9afd73c6ae0765a6809fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 098/160] fix: uncaptured command no longer hangs once it fills
 the pipe

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 6d72ca0..8d24f1d 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -195,7 +195,7 @@ def RunCmd(
     logging.log(logging_level, "------------------------------------------------")
     c = subprocess.Popen(
         cmd,
-        stdout=subprocess.PIPE,
+        stdout=subprocess.PIPE if capture else subprocess.DEVNULL,
         stderr=subprocess.STDOUT,
         cwd=workingdir,
         shell=True,
-- 
2.43.0


From fa8635170ad960a7dc74b43f7e4dafa9de36f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 099/160] fix: command whose output cannot be processed no
 longer blocks forever

---
 edk2toollib/utility_functions.py | 37 +++++++++++++++++---------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 8d24f1d..9b20a29 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -66,24 +66,27 @@ def reader(filepath, outstream, stream, logging_level=logging.INFO, encodingErro
     part of the threading pattern.
     """
     f = None
-    # open file if caller provided path
-    if filepath:
-        f = open(filepath, "w")
-
-    while True:
-        s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
-        if not s:
-            break
+    try:
+        # open file if caller provided path
+        if filepath:
+            f = open(filepath, "w")
+
+        while True:
+            s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
+            if not s:
+                break
+            if f is not None:
+                # write to file if caller provided file
+                f.write(s)
+            if outstream is not None:
+                # write to stream object if caller provided object
+                outstream.write(s)
+            logging.log(logging_level, s.rstrip())
+    finally:
+        # always close the pipe, otherwise a failure here leaves the command blocked on writing to it.
+        stream.close()
         if f is not None:
-            # write to file if caller provided file
-            f.write(s)
-        if outstream is not None:
-            # write to stream object if caller provided object
-            outstream.write(s)
-        logging.log(logging_level, s.rstrip())
-    stream.close()
-    if f is not None:
-        f.close()
+            f.close()
 
 
 def GetHostInfo() -> namedtuple:
-- 
2.43.0


From a8f433724f917bf52d8c679f1c87ce78424ed438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 100/160] fix: python script given in quotes or with a space in
 its path is found

---
 edk2toollib/utility_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 9b20a29..565a291 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -259,10 +259,8 @@ def RunPythonScript(
         (int): returncode of called cmd
     """
     # locate python file on path
-    pythonfile.strip("\"'")
-    if " " in pythonfile:
-        pythonfile = '"' + pythonfile + '"'
-    params.strip()
+    pythonfile = pythonfile.strip("\"'")
+    params = params.strip()
     logging.debug("RunPythonScript: {0} {1}".format(pythonfile, params))
     if os.path.isabs(pythonfile):
         logging.debug("Python Script was given as absolute path: %s" % pythonfile)
@@ -277,6 +275,8 @@ def RunPythonScript(
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
+    if " " in pythonfile:
+        pythonfile = '"' + pythonfile + '"'
     params = pythonfile + " " + params
     return RunCmd(
         sys.executable,
-- 
2.43.0


From f5171742f292dae3be126a22af4e11c8f27b590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 101/160] fix: PrintByteList accepts an output stream

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 565a291..afb8164 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -477,7 +477,7 @@ def PrintByteList(
     **kwargs: Any,  #
 ) -> None:
     """Print a byte array as hex and optionally output ascii as well as offset within the buffer."""
-    outfs = kwargs.get("outfs", sys.stdout)
+    outfs = kwargs.pop("outfs", sys.stdout)
     kwargs["include_ascii"] = IncludeAscii
     kwargs["include_hex_sep"] = IncludeHexSep
     kwargs["include_offset"] = IncludeOffset
-- 
2.43.0


From 06ed72adc913a55154c45e5c2af08ee56060293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 102/160] fix: hexdump aligns the characters of a partial line
 when only one of offset and separator is shown

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index afb8164..a9bf664 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -546,7 +546,7 @@ def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = sys.st
             while index % 16 != 15:
                 outfs.write("     ")
                 if index % 16 == 7:  # account for the - symbol in the hex dump
-                    if include_offset:
+                    if include_hex_sep:
                         outfs.write("  ")
                 index += 1
             # print the ascii partial line
-- 
2.43.0


From f99f22c94247148d1d4cd6aa2ff2ae5f8de63c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:41 +0000
Subject: [PATCH 103/160] fix: detached signature can be put in the current
 folder

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index a9bf664..f459f14 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -317,7 +317,7 @@ def DetachedSignWithSignTool(
     if " " in SignToolPath:
         SignToolPath = '"' + SignToolPath + '"'
 
-    OutputDir = os.path.dirname(SignatureOutputFile)
+    OutputDir = os.path.dirname(SignatureOutputFile) or "."
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # Signtool parameters from
     #   https://docs.microsoft.com/en-us/windows-hardware/manufacture/desktop/secure-boot-key-generation-and-signing-using-hsm--example  # noqa: E501
-- 
2.43.0


From eb1088e012a8491ac0132ec3e607bbd2adb55cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:41 +0000
Subject: [PATCH 104/160] fix: catalog signing accepts relative paths and a key
 path with spaces

---
 edk2toollib/utility_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index f459f14..7830c0e 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -364,10 +364,13 @@ def CatalogSignWithSignTool(
     if " " in SignToolPath:
         SignToolPath = '"' + SignToolPath + '"'
 
+    # the tool runs in the folder of the file, so relative paths have to be resolved before
+    ToSignFilePath = os.path.abspath(ToSignFilePath)
+    PfxFilePath = os.path.abspath(PfxFilePath)
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # todo: link to catalog signing documentation
-    params = "sign /a /fd SHA256 /f " + PfxFilePath
+    params = 'sign /a /fd SHA256 /f "' + PfxFilePath + '"'
     if PfxPass is not None:
         # add password if set
         params = params + " /p " + PfxPass
-- 
2.43.0


From 52258608a8d9608685aebb54f9534df817013de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:41 +0000
Subject: [PATCH 105/160] fix: record that cannot be formatted is left
 uncolored for other handlers

---
 edk2toollib/log/ansi_handler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 93c7b3d..6dcfd67 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -231,11 +231,12 @@ class ColoredFormatter(logging.Formatter):
             levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
             record.levelname = levelname_color
 
-        result = logging.Formatter.format(self, record)
-
-        record.levelname = levelname
-        record.msg = org_message
-        return result
+        try:
+            return logging.Formatter.format(self, record)
+        finally:
+            # other handlers see the same record, restore it even if it could not be formatted
+            record.levelname = levelname
+            record.msg = org_message
 
 
 def get_ansi_string(color: AnsiColor = AnsiColor.RESET) -> str:
-- 
2.43.0


From 73808afb4437d6bf7c43a18e5eceb1d0505b4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:41 +0000
Subject: [PATCH 106/160] fix: log handlers write the record a filter put in
 place of the original

---
 edk2toollib/log/ansi_handler.py   | 2 ++
 edk2toollib/log/file_handler.py   | 2 ++
 edk2toollib/log/string_handler.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 6dcfd67..970b92e 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -298,6 +298,8 @@ class ColoredStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/file_handler.py b/edk2toollib/log/file_handler.py
index e09d9ca..1a4bdc2 100644
--- a/edk2toollib/log/file_handler.py
+++ b/edk2toollib/log/file_handler.py
@@ -26,6 +26,8 @@ class FileHandler(logging.FileHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/string_handler.py b/edk2toollib/log/string_handler.py
index a4f3941..7345bd7 100644
--- a/edk2toollib/log/string_handler.py
+++ b/edk2toollib/log/string_handler.py
@@ -31,6 +31,8 @@ class StringStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
-- 
2.43.0


From d2bfcc954353ee98a34e9751719261609ab251eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 107/160] fix: junit report stays well-formed when a text holds
 control characters

---
 edk2toollib/log/junit_report_format.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 26b1a95..b728261 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -15,9 +15,18 @@ Used to support CI/CD and exporting test results for other tools.
 This does test report generation without being a test runner.
 """
 
+import re
 import time
 from typing import IO
-from xml.sax.saxutils import escape
+from xml.sax.saxutils import escape as xml_escape
+
+# Characters that can not be part of an XML 1.0 document, not even escaped.
+ILLEGAL_XML_CHARACTERS = re.compile("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
+
+def escape(data: str, entities: dict = {}) -> str:
+    """Escapes the text for XML and replaces the characters XML can not hold."""
+    return xml_escape(ILLEGAL_XML_CHARACTERS.sub("?", data), entities)
 
 
 class JunitReportError(object):
-- 
2.43.0


From 75f3e3b43a3584f8057285fc6505228344329037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 108/160] fix: junit report keeps the line breaks of a message

---
 edk2toollib/log/junit_report_format.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index b728261..2651a11 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -23,6 +23,9 @@ from xml.sax.saxutils import escape as xml_escape
 # Characters that can not be part of an XML 1.0 document, not even escaped.
 ILLEGAL_XML_CHARACTERS = re.compile("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
 
+# Parsers turn white space in an attribute into blanks unless it is escaped.
+ATTRIBUTE_ENTITIES = {'"': "&quot;", "\n": "&#10;", "\r": "&#13;", "\t": "&#9;"}
+
 
 def escape(data: str, entities: dict = {}) -> str:
     """Escapes the text for XML and replaces the characters XML can not hold."""
@@ -34,8 +37,8 @@ class JunitReportError(object):
 
     def __init__(self, type: str, msg: str) -> "JunitReportError":
         """Init the type of error."""
-        self.Message = escape(msg.strip(), {'"': "&quot;"})
-        self.Type = escape(type.strip(), {'"': "&quot;"})
+        self.Message = escape(msg.strip(), ATTRIBUTE_ENTITIES)
+        self.Type = escape(type.strip(), ATTRIBUTE_ENTITIES)
 
 
 class JunitReportFailure(object):
@@ -43,8 +46,8 @@ class JunitReportFailure(object):
 
     def __init__(self, type: str, msg: str) -> "JunitReportFailure":
         """Init the type of Failure."""
-        self.Message = escape(msg.strip(), {'"': "&quot;"})
-        self.Type = escape(type.strip(), {'"': "&quot;"})
+        self.Message = escape(msg.strip(), ATTRIBUTE_ENTITIES)
+        self.Type = escape(type.strip(), ATTRIBUTE_ENTITIES)
 
 
 class JunitReportTestCase(object):
@@ -58,8 +61,8 @@ class JunitReportTestCase(object):
 
     def __init__(self, Name: str, ClassName: str) -> "JunitReportTestCase":
         """Init a Test case with it's name and class name."""
-        self.Name = escape(Name.strip(), {'"': "&quot;"})
-        self.ClassName = escape(ClassName.strip(), {'"': "&quot;"})
+        self.Name = escape(Name.strip(), ATTRIBUTE_ENTITIES)
+        self.ClassName = escape(ClassName.strip(), ATTRIBUTE_ENTITIES)
         self.Time = 0
         self.Status = JunitReportTestCase.NEW
 
@@ -139,8 +142,8 @@ class JunitReportTestSuite(object):
 
     def __init__(self, Name: str, Package: str, Id: id) -> "JunitReportTestSuite":
         """Initialize a new test suite."""
-        self.Name = escape(Name.strip(), {'"': "&quot;"})
-        self.Package = escape(Package.strip(), {'"': "&quot;"})
+        self.Name = escape(Name.strip(), ATTRIBUTE_ENTITIES)
+        self.Package = escape(Package.strip(), ATTRIBUTE_ENTITIES)
         self.TestId = Id
         self.TestCases = []
 
-- 
2.43.0


From 3a02605cea3f35dcc9d26cf2b78cadd7f61fc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 109/160] fix: UEFI variable whose name has shell characters
 can be set without running them

---
 edk2toollib/os/uefivariablesupport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index eb4e194..fc09d01 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -21,6 +21,7 @@ This module provides:
 
 import logging
 import os
+import shlex
 import struct
 import uuid
 from ctypes import create_string_buffer
@@ -301,7 +302,7 @@ class UefiVariable(object):
 
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
-                os.system("sudo chattr -i " + path)
+                os.system("sudo chattr -i " + shlex.quote(path))
 
             with open(path, "wb") as fd:
                 # var data is attribute (UINT32) followed by data
-- 
2.43.0


From b7c3406d082cf2bba7ac51222572df6e937a9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 110/160] fix: immutable UEFI variable can be deleted

---
 edk2toollib/os/uefivariablesupport.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index fc09d01..c2acbc7 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -293,6 +293,8 @@ class UefiVariable(object):
             if var is None:
                 # we are deleting the variable
                 if os.path.exists(path):
+                    # remove the immutable flag first, the file can not be removed otherwise
+                    os.system("sudo chattr -i " + shlex.quote(path))
                     os.remove(path)
                     success = 1  # expect non-zero success
                 return success
-- 
2.43.0


From 7f3a6442e3aa02589e8658c31e391ee181b5e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 111/160] fix: RemoveTree leaves what links point to alone and
 reports a link

---
 edk2toollib/utility_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 7830c0e..4f1e46b 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -455,9 +455,13 @@ def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
     if sys.platform.startswith("win"):
         dir_path = "\\\\?\\" + os.path.abspath(dir_path)
 
-    def _remove_readonly(func: Callable, path: str, _: any) -> None:
+    def _remove_readonly(func: Callable, path: str, exc_info: any) -> None:
         """Private function to attempt to change permissions on file/folder being deleted."""
-        os.chmod(path, stat.S_IWRITE)
+        if func is os.path.islink:
+            # dir_path itself is a link, which is not removed. What it points to must not be changed either.
+            raise exc_info[1]
+        if not os.path.islink(path):
+            os.chmod(path, stat.S_IWRITE)
         func(path)
 
     for _ in range(3):  # retry up to 3 times
-- 
2.43.0


From f47ab4dc849e09f07ce60b1607b264f29146216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 112/160] fix: RemoveTree removes read-only folders and retries
 a folder that was in use

---
 edk2toollib/utility_functions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 4f1e46b..d623ebf 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -460,9 +460,17 @@ def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
         if func is os.path.islink:
             # dir_path itself is a link, which is not removed. What it points to must not be changed either.
             raise exc_info[1]
+        if path != dir_path:
+            # the content of a folder can only be removed if the folder can be changed
+            os.chmod(os.path.dirname(path), stat.S_IRWXU)
         if not os.path.islink(path):
-            os.chmod(path, stat.S_IWRITE)
-        func(path)
+            os.chmod(path, stat.S_IRWXU)
+        if func is os.open:
+            # the folder could not be read, so its content is still there
+            os.close(os.open(path, os.O_RDONLY))
+            shutil.rmtree(path, onerror=_remove_readonly)
+        else:
+            func(path)
 
     for _ in range(3):  # retry up to 3 times
         try:
-- 
2.43.0


From 60d99585c3de15f0429d74b8c2c0b988b0d3176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 113/160] fix: class joining two hierarchies is found whatever
 the classes are named

---
 edk2toollib/utility_functions.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index d623ebf..f06aa2f 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -421,24 +421,24 @@ def locate_class_in_module(Module: Any, DesiredClass: Any) -> Any:  # noqa: ANN4
     |DesiredClass|  ->  |ChildClass|  ->  |GrandChildClass|
     --------------      ------------      -----------------
     """
-    DesiredClassInstance = None
     # Pull out the contents of the module that was provided
     module_contents = dir(Module)
     # Filter through the Module, we're only looking for classes.
     classList = [getattr(Module, obj) for obj in module_contents if inspect.isclass(getattr(Module, obj))]
 
-    for _class in classList:
-        # Classes that the module import show up in this list too so we need
-        # to make sure it's an INSTANCE of DesiredClass, not DesiredClass itself!
-        # if multiple instances are found in the same class hierarchy, pick the
-        # most specific one. If multiple instances are found belonging to different
-        # class hierarchies, raise an error.
-        if _class is not DesiredClass and issubclass(_class, DesiredClass):
-            if (DesiredClassInstance is None) or issubclass(_class, DesiredClassInstance):
-                DesiredClassInstance = _class
-            elif not issubclass(DesiredClassInstance, _class):
-                raise RuntimeError(f"Multiple instances were found:\n\t{DesiredClassInstance}\n\t{_class}")
-    return DesiredClassInstance
+    # Classes that the module import show up in this list too so we need
+    # to make sure it's an INSTANCE of DesiredClass, not DesiredClass itself!
+    candidates = [_class for _class in classList if _class is not DesiredClass and issubclass(_class, DesiredClass)]
+
+    # if multiple instances are found in the same class hierarchy, pick the
+    # most specific one. If multiple instances are found belonging to different
+    # class hierarchies, raise an error. This must not depend on the names of the classes.
+    for _class in candidates:
+        if all(issubclass(_class, other) for other in candidates):
+            return _class
+    if candidates:
+        raise RuntimeError("Multiple instances were found:" + "".join(f"\n\t{_class}" for _class in candidates))
+    return None
 
 
 def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
-- 
2.43.0


From 4affd06c8296e5107a81ae440f06589b4aa392cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 114/160] fix: RemoveTree removes several folders below folders
 that cannot be searched

---
 edk2toollib/utility_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index f06aa2f..6312093 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -465,8 +465,8 @@ def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
             os.chmod(os.path.dirname(path), stat.S_IRWXU)
         if not os.path.islink(path):
             os.chmod(path, stat.S_IRWXU)
-        if func is os.open:
-            # the folder could not be read, so its content is still there
+        if func in (os.open, os.lstat):
+            # the folder could not be looked into, so it is still there
             os.close(os.open(path, os.O_RDONLY))
             shutil.rmtree(path, onerror=_remove_readonly)
         else:
-- 
2.43.0


From c79847c2fb7488fffe79799d854f17519640cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 115/160] fix: SDK tool is searched with the requested product
 and architecture

---
 edk2toollib/windows/locate_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 0e05159..0387ebf 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -384,7 +384,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     variables = ["WindowsSdkDir", "WindowsSDKVersion"]
     # get the value with QueryVcVariables
     try:
-        results = QueryVcVariables(variables, product, arch)
+        results = QueryVcVariables(variables, arch, product)
         # Get the variables we care about
         sdk_dir = results["WindowsSdkDir"]
         sdk_ver = results["WindowsSDKVersion"]
-- 
2.43.0


From a40da2e07ca5faec98c5c9c963f62e821b61eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 116/160] fix: choice of an SDK tool does not depend on the
 order of the search

---
 edk2toollib/windows/locate_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 0387ebf..7909af0 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -390,7 +390,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
         sdk_ver = results["WindowsSDKVersion"]
     except ValueError:
         sdk_dir = os.path.join(os.getenv("ProgramFiles(x86)"), "Windows Kits", "10", "bin")
-        sdk_ver = "0.0.0.0"
+        sdk_ver = None  # no version is the current one
     sdk_dir = os.path.realpath(sdk_dir)
     search_pattern = os.path.join(sdk_dir, "**", tool)
 
@@ -398,6 +398,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     # look for something like 10.0.12323.0123
     windows_ver_regex = re.compile(r"\d+\.\d+\.\d+\.\d+")
     top_version_so_far = -1
+    top_is_current_sdk_version = False
     top_match = None
     # Look at in match in the tree
     for match in glob.iglob(search_pattern, recursive=True):
@@ -415,7 +416,10 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
                 top_ver_match = version
         # if we have a highest version or one that matches our current from environment variables?
         is_current_sdk_version = _CompareWindowVersions(top_ver_match, sdk_ver) == 0
+        if top_is_current_sdk_version and not is_current_sdk_version:  # nothing beats the current version
+            continue
         if _CompareWindowVersions(top_ver_match, top_version_so_far) > 0 or is_current_sdk_version:
+            top_is_current_sdk_version = is_current_sdk_version
             top_version_so_far = top_ver_match
             top_match = match
     if top_match is None:
-- 
2.43.0


From 4e901676f9e1cc4ed5636ee518239fb844322c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 117/160] fix: write the PKCS1 certificate dump to the
 requested stream

---
 edk2toollib/uefi/wincert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 356bdd1..cb91f64 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -188,7 +188,7 @@ class WinCertPkcs1(object):
         out_fs.write(f"  Hash Guid:            {str(self.hash_algorithm)}\n")
         out_fs.write("  cert_data:             \n")
         cdl = self.cert_data.tolist()
-        hexdump(cdl, out_fs=out_fs)
+        hexdump(cdl, outfs=out_fs)
 
     def Print(self, out_fs: Optional[BytesIO] = sys.stdout) -> None:
         """Prints the struct to the console."""
-- 
2.43.0


From 5d9e845e3629df9ca1ef7dcc8b354ea552649443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 118/160] fix: print the certificate of a capsule to the same
 console as the rest of the report

---
 edk2toollib/uefi/fmp_auth_header.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index cd5b0f7..857de69 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -10,6 +10,7 @@
 """Module for encoding and decoding EFI_FIRMWARE_IMAGE_AUTHENTICATION with certificate data and payload data."""
 
 import struct
+import sys
 from typing import IO
 
 from edk2toollib.uefi.edk2.fmp_payload_header import FmpPayloadHeaderClass
@@ -107,7 +108,7 @@ class FmpAuthHeaderClass(object):
                 MonotonicCount=self.MonotonicCount
             )
         )
-        self.AuthInfo.DumpInfo()
+        self.AuthInfo.dump_info(sys.stdout)
         print(
             "sizeof (Payload)                                                = {Size:08X}".format(
                 Size=len(self.Payload)
-- 
2.43.0


From e82761a10ba02791907fe43050b3dea076751c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 119/160] fix: log coloured records whole when conversion is
 asked for outside Windows

---
 edk2toollib/log/ansi_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 970b92e..bfba5a0 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -435,7 +435,8 @@ class ColoredStreamHandler(logging.StreamHandler):
 
     def call_win32(self, command: str, params: list) -> None:
         """Calls the win32 apis set_foreground and set_background."""
-        if command == "m":
+        # there is nothing to call when not on Windows
+        if command == "m" and self.win32_calls is not None:
             for param in params:
                 if param in self.win32_calls:
                     func_args = self.win32_calls[param]
-- 
2.43.0


From 0ded7e4e7a2171fe3c28f6f49faa3a0a725e29ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 120/160] fix: compare all four parts of Windows SDK versions

---
 edk2toollib/windows/locate_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 7909af0..8c54203 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -317,9 +317,10 @@ def _CompareWindowVersions(a: str, b: str) -> int:
         return -1
     if a_periods != 3 and b_periods != 3:
         return 0
-    a_parts = str(a).split(".")
-    b_parts = str(b).split(".")
-    for i in range(3):
+    # vcvarsall reports the version of the SDK with a trailing backslash
+    a_parts = str(a).rstrip("\\").split(".")
+    b_parts = str(b).rstrip("\\").split(".")
+    for i in range(4):
         a_p = int(a_parts[i])
         b_p = int(b_parts[i])
         if a_p > b_p:
-- 
2.43.0


From 32fb02ecbf9ba696a4c72a0ce8f8ae115d0cd35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:21 +0000
Subject: [PATCH 121/160] fix: find SDK tools below folders whose names hold
 glob characters

---
 edk2toollib/windows/locate_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 8c54203..b710d94 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -393,7 +393,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
         sdk_dir = os.path.join(os.getenv("ProgramFiles(x86)"), "Windows Kits", "10", "bin")
         sdk_ver = None  # no version is the current one
     sdk_dir = os.path.realpath(sdk_dir)
-    search_pattern = os.path.join(sdk_dir, "**", tool)
+    search_pattern = os.path.join(glob.escape(sdk_dir), "**", tool)
 
     match_offset = len(sdk_dir)
     # look for something like 10.0.12323.0123
-- 
2.43.0


From c98fffc4feface9d224a3c8880dd9a0c937bed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 122/160] fix: do not end a negated ignore class at a leading
 closing bracket

---
 edk2toollib/gitignore_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 83862bb..2f26358 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -256,7 +256,9 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
                 stuff = pattern[i:j].replace("\\", "\\\\").replace("/", "")
                 i = j + 1
                 if stuff[0] == "!":
-                    stuff = "".join(["^/", stuff[1:]])
+                    # a separator is never matched by a class
+                    res.append("(?!" + seps_group + ")")
+                    stuff = "".join(["^", stuff[1:]])
                 elif stuff[0] == "^":
                     stuff = "".join("\\" + stuff)
                 res.append("[{}]".format(stuff))
-- 
2.43.0


From 40f002ba9af2c88c35a7b45a35495d5e56b7ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 123/160] fix: do not re-include a directory for a pattern that
 names its contents

---
 edk2toollib/gitignore_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 2f26358..c398641 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -197,7 +197,7 @@ class IgnoreRule(collections.namedtuple("IgnoreRule_", IGNORE_RULE_FIELDS)):
             rel_path += "." * _count_trailing_symbol(".", abs_path)
         # Path() strips the trailing slash, so we need to preserve it
         # in case of directory-only negation
-        if self.negation and isinstance(abs_path, str) and abs_path[-1] == "/":
+        if self.negation and self.directory_only and isinstance(abs_path, str) and abs_path[-1] == "/":
             rel_path += "/"
         if rel_path.startswith("./"):
             rel_path = rel_path[2:]
-- 
2.43.0


From eb515989ea98bcfffb99180efa8250a0367c3922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 124/160] fix: apply ignore rules to paths below a base
 directory that is a symbolic link

---
 edk2toollib/gitignore_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index c398641..9415d92 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -70,7 +70,7 @@ def parse_gitignore_lines(lines: list, full_path: str, base_dir: str) -> Callabl
     for line in lines:
         counter += 1
         line = line.rstrip("\n")
-        rule = rule_from_pattern(line, base_path=Path(base_dir).resolve(), source=(full_path, counter))
+        rule = rule_from_pattern(line, base_path=_normalize_path(base_dir), source=(full_path, counter))
         if rule:
             rules.append(rule)
     if not any(r.negation for r in rules):
@@ -91,7 +91,7 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     Because git allows for nested .gitignore files, a base_path value
     is required for correct behavior. The base path should be absolute.
     """
-    if base_path and base_path != Path(base_path).resolve():
+    if base_path and base_path != _normalize_path(base_path):
         raise ValueError("base_path must be absolute")
     # Store the exact pattern for our repr and string functions
     orig_pattern = pattern
-- 
2.43.0


From 4534dfc16e6ddfebfd39a32aebd25b49f05721c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 125/160] fix: do not take a directory named like a DEC file
 for a package

---
 edk2toollib/uefi/edk2/path_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index 7e03c68..76034e4 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -305,7 +305,7 @@ class Edk2Path(object):
         while path_root != dirpath:
             if dirpath.exists():
                 for f in dirpath.iterdir():
-                    if f.suffix.lower() == ".dec":
+                    if f.is_file() and f.suffix.lower() == ".dec":
                         return dirpath.name
 
             dirpath = dirpath.parent
-- 
2.43.0


From e7180018a2f7f2a6e6a6cbea092f3d86887fd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 126/160] fix: apply NOT to its own operand only, not to all
 that follows

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 852283b..388a834 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -718,12 +718,12 @@ class BaseParser(object):
             return -1
         if token == "(" or token == ")":
             return 100
-        if token == "NOT":  # not is the lowest
-            return -2
+        if token == "NOT":  # binds tighter than OR and AND
+            return 1
         if token.startswith("!+"):
             token = token[2:]
         if token not in ["OR", "AND"]:  # comparisons bind tighter than OR and AND
-            return 1
+            return 2
         return 0
 
     def InActiveCode(self) -> bool:
-- 
2.43.0


From d089514c5a2067ad55e8d3f117ca4769c09426f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 127/160] fix: do not drop the second of two NOTs

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 388a834..39a8e09 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -640,6 +640,8 @@ class BaseParser(object):
         found_not = False
         for token in tokens:
             if str(token).upper() == "NOT":
+                if found_not:
+                    collapsed_tokens.append("NOT")
                 found_not = True
                 continue
             if not found_not:
-- 
2.43.0


From 0bf7a55300939df5decd45ea4fce23fe0eb0ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 128/160] fix: accept tabs between the parts of a conditional
 expression

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 39a8e09..0b9459d 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -480,10 +480,9 @@ class BaseParser(object):
     def EvaluateConditional(self, text: str) -> bool:
         """Uses a pushdown resolver."""
         text = str(text).strip()
-        if text.lower().startswith("!if "):
-            text = text[3:].strip()
-        elif text.lower().startswith("!elseif "):
-            text = text[7:].strip()
+        directive = text.split()[0] if text else ""
+        if directive.lower() in ["!if", "!elseif"]:
+            text = text[len(directive) :].strip()
         else:
             raise RuntimeError(f"Invalid conditional cannot be validated: {text}")
 
@@ -587,7 +586,7 @@ class BaseParser(object):
                     tokens.append(token)
                     token = ""
                 tokens.append(character)
-            elif character == " " and (mode == TEXT_MODE or mode == MACRO_MODE):
+            elif character.isspace() and (mode == TEXT_MODE or mode == MACRO_MODE):
                 if len(token) > 0:
                     tokens.append(token)
                     token = ""
@@ -603,7 +602,7 @@ class BaseParser(object):
             elif character not in CONDITION_CHARACTERS and mode == CONDITION_MODE:
                 if len(token) > 0:
                     tokens.append(token)
-                token = character if character != " " else ""
+                token = character if not character.isspace() else ""
                 mode = TEXT_MODE
             elif character in CONDITION_CHARACTERS and mode == TEXT_MODE:
                 if len(token) > 0:
-- 
2.43.0


From ab6b4162d46e932c9ef6c152cdf3e52b271c5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 129/160] fix: read GUIDs of declarations that have tabs
 between their fields

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 0b9459d..a49885b 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -770,7 +770,7 @@ class BaseParser(object):
         Raises:
             (RuntimeError): if missing any of the 11 parts, or it isn't long enough.
         """
-        entries = line.lstrip(" {").rstrip(" }").split(",")
+        entries = line.replace("\t", " ").lstrip(" {").rstrip(" }").split(",")
         if len(entries) != 11:
             raise RuntimeError(
                 f"Invalid GUID found {line}. We are missing some parts since we only found: {len(entries)}"
-- 
2.43.0


From 601e76befa61a7bfb21c2de8867f6e75f837e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 130/160] fix: a DSC line with brackets inside a value is no
 section header

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index a49885b..659f862 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -893,7 +893,7 @@ class HashFileParser(BaseParser):
         Args:
           line (str): line representing a new section.
         """
-        if line.count("[") == 1 and line.count("]") == 1:  # new section
+        if line.strip().startswith("[") and line.count("[") == 1 and line.count("]") == 1:  # new section
             section = line.strip().lstrip("[").split(".")[0].split(",")[0].rstrip("]").strip()
             self.CurrentFullSection = line.strip().lstrip("[").split(",")[0].rstrip("]").strip()
             return (True, section)
-- 
2.43.0


From 644098cfbe08b4ad51e0492770f1984e02eed144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 131/160] fix: braces in a quoted PCD value do not open or
 close a component's override block

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 6717e9c..c8b1a03 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -41,6 +41,7 @@ class DscParser(HashFileParser):
     SECTION_COMPONENT = "components"
     SECTION_REGEX = re.compile(r"\[(.*)\]")
     OVERRIDE_REGEX = re.compile(r"\<(.*)\>")
+    QUOTED_REGEX = re.compile(r"\"[^\"]*\"|'[^']*'")
 
     def __init__(self) -> "HashFileParser":
         """Init an empty Parser."""
@@ -126,8 +127,9 @@ class DscParser(HashFileParser):
                         self.SixModsEnhanced.append({"file": os.path.normpath(file_name), "lineno": lineno, "data": p})
                     self.Logger.debug("Found 64bit Module: %s" % p)
 
-            self.ParsingInBuildOption = self.ParsingInBuildOption + line_resolved.count("{")
-            self.ParsingInBuildOption = self.ParsingInBuildOption - line_resolved.count("}")
+            unquoted = self.QUOTED_REGEX.sub("", line_resolved)
+            self.ParsingInBuildOption = self.ParsingInBuildOption + unquoted.count("{")
+            self.ParsingInBuildOption = self.ParsingInBuildOption - unquoted.count("}")
             return (line_resolved, [], None)
 
         # process line in ia32 components
@@ -152,8 +154,9 @@ class DscParser(HashFileParser):
                         )
                     self.Logger.debug("Found 32bit Module: %s" % p)
 
-            self.ParsingInBuildOption = self.ParsingInBuildOption + line_resolved.count("{")
-            self.ParsingInBuildOption = self.ParsingInBuildOption - line_resolved.count("}")
+            unquoted = self.QUOTED_REGEX.sub("", line_resolved)
+            self.ParsingInBuildOption = self.ParsingInBuildOption + unquoted.count("{")
+            self.ParsingInBuildOption = self.ParsingInBuildOption - unquoted.count("}")
             return (line_resolved, [], None)
 
         # process line in other components
@@ -172,8 +175,9 @@ class DscParser(HashFileParser):
                     self.OtherMods.append(p)
                     self.Logger.debug("Found Module: %s" % p)
 
-            self.ParsingInBuildOption = self.ParsingInBuildOption + line_resolved.count("{")
-            self.ParsingInBuildOption = self.ParsingInBuildOption - line_resolved.count("}")
+            unquoted = self.QUOTED_REGEX.sub("", line_resolved)
+            self.ParsingInBuildOption = self.ParsingInBuildOption + unquoted.count("{")
+            self.ParsingInBuildOption = self.ParsingInBuildOption - unquoted.count("}")
             return (line_resolved, [], None)
 
         # process line in library class section (don't use full name)
-- 
2.43.0


From faad6a0b521d4f4e25f979433e4dc16f3e4c31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 132/160] fix: replace each PCD of a DSC condition, and of
 !elseif, by its own value

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index c8b1a03..c685e43 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -64,12 +64,17 @@ class DscParser(HashFileParser):
 
     def ReplacePcds(self, line: str) -> str:
         """Attempts to replace a token if it is a PCD token."""
-        if line.startswith("!if"):
-            for token in re.split(r"[^\w\.]", line):
-                if token in self.PcdValueDict:
-                    line = line.replace(token, self.PcdValueDict[token])
+        if line.lower().startswith(("!if", "!elseif")):
+            # whole names only, as the name of one PCD can be the start of another's
+            line = re.sub(r"[\w.]+", lambda token: self._PcdConditionValue(token.group()), line)
         return line
 
+    def _PcdConditionValue(self, token: str) -> str:
+        """The value of a PCD, without the datum type and size, or the token if it is not a PCD."""
+        if token not in self.PcdValueDict:
+            return token
+        return re.match(r"L?\"[^\"]*\"|[^|]*", self.PcdValueDict[token]).group().strip()
+
     def __ParseLine(self, Line: str, file_name: Optional[str] = None, lineno: int = None) -> tuple:
         line_stripped = self.StripComment(Line).strip()
         if len(line_stripped) < 1:
-- 
2.43.0


From 0974702297f2d6d6f93d5d0c55db2c2cbd80336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 133/160] fix: do not take PCD values from the inactive parts
 of a DSC when reading its definitions

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index c685e43..f40b1d3 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -205,8 +205,6 @@ class DscParser(HashFileParser):
         if len(line_stripped) < 1:
             return ("", [])
 
-        # this line needs to be here to resolve any symbols inside the !include lines, if any
-        self.RegisterPcds(line_stripped)
         line_stripped = self.ReplacePcds(line_stripped)
         line_resolved = self.ReplaceVariables(line_stripped)
         if self.ProcessConditional(line_resolved):
@@ -220,6 +218,9 @@ class DscParser(HashFileParser):
         if not self.InActiveCode():
             return ("", [])
 
+        # this line needs to be here to resolve any symbols inside the !include lines, if any
+        self.RegisterPcds(line_resolved)
+
         # check for include file and import lines from file
         if line_resolved.strip().lower().startswith("!include"):
             # include line.
-- 
2.43.0


From 20af707b2cd50b5659edf16edeb2f926b59e8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 134/160] fix: no trailing tab in the path of a DSC component
 with overrides

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index f40b1d3..458b76b 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -400,13 +400,13 @@ class DscParser(HashFileParser):
 
                 for scope in current_scopes:
                     # Components without a specific scope (common or empty) are added to all current scopes
-                    if os.path.isabs(line.strip(" {")):
-                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" {"))
+                    if os.path.isabs(line.strip(" \t{")):
+                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" \t{"))
                     if scope == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
-                            self.Components.append((line.strip(" {"), arch, library_override_dict))
+                            self.Components.append((line.strip(" \t{"), arch, library_override_dict))
                     else:
-                        self.Components.append((line.strip(" {"), scope, library_override_dict))
+                        self.Components.append((line.strip(" \t{"), scope, library_override_dict))
 
         except StopIteration:
             return
-- 
2.43.0


From 0f604148c85dfa550c8c77a1781b61dde7e85fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 135/160] fix: read DSC sections whose header has blanks inside
 the brackets

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 458b76b..5425027 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -427,7 +427,7 @@ class DscParser(HashFileParser):
             return scope_list
 
         # If the line is a section header, but not the correct section type, return []
-        elif not match.group().startswith(f"[{section_type}"):
+        elif not match.group().strip("[] \t").startswith(section_type):
             return []
 
         # The line must be a section header and of the correct section type. Return it
-- 
2.43.0


From 515828abd5f005b9c141bf9f4af1f09647dc2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 136/160] fix: no blanks around the architectures of a DSC's
 components

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 5425027..def1c07 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -404,7 +404,7 @@ class DscParser(HashFileParser):
                         line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" \t{"))
                     if scope == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
-                            self.Components.append((line.strip(" \t{"), arch, library_override_dict))
+                            self.Components.append((line.strip(" \t{"), arch.strip(), library_override_dict))
                     else:
                         self.Components.append((line.strip(" \t{"), scope, library_override_dict))
 
-- 
2.43.0


From b8e75c1346f26522d94787040471a14914ae6203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 137/160] fix: read INF statements of an FDF that have a tab
 behind INF

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index fcbe8c3..2ebf2f0 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -155,7 +155,7 @@ class FdfParser(HashFileParser):
                     if section not in self.FVs:
                         self.FVs[section] = {"Dict": {}, "Infs": [], "Files": {}}
                     # ex: INF  MdeModulePkg/Core/RuntimeDxe/RuntimeDxe.inf
-                    if sline.upper().startswith("INF "):
+                    if sline.upper().startswith(("INF ", "INF\t")):
                         InfValue = sline[3:].strip()
                         self.FVs[section]["Infs"].append(InfValue)
                     # ex: FILE FREEFORM = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD {
-- 
2.43.0


From 0f99f51b66b296801b60b786fd3c91370a1615e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 138/160] fix: read FDF sections whose header has blanks inside
 the brackets or before a comma

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 2ebf2f0..a872154 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -116,9 +116,9 @@ class FdfParser(HashFileParser):
             if sline.strip().startswith("[") and sline.strip().endswith("]"):  # if we're starting a new section
                 # this basically gets what's after the . or if it doesn't have a period
                 # the whole thing for every comma separated item in sline
-                self.CurrentSection = [
-                    x.split(".", 1)[1] if "." in x else x for x in sline.strip("[] ").strip().split(",")
-                ]
+                sections = [x.strip() for x in sline.strip("[] \t").split(",")]
+                self.CurrentSection = [x.split(".", 1)[1] if "." in x else x for x in sections]
+                sline = f"[{','.join(sections)}]"
                 InDefinesSection = False
                 InFdSection = False
                 InFvSection = False
-- 
2.43.0


From 8652976365e0669ec98a82f81b7071cf997f96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 139/160] fix: braces in a quoted value of an FDF do not open
 or close a block

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index a872154..01800c5 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -70,8 +70,9 @@ class FdfParser(HashFileParser):
                 self.InsertLinesFromFile(sp)
                 continue
 
-            self._BracketCount += sline.count("{")
-            self._BracketCount -= sline.count("}")
+            unquoted = re.sub(r'"[^"]*"', "", sline)
+            self._BracketCount += unquoted.count("{")
+            self._BracketCount -= unquoted.count("}")
 
             return sline
 
-- 
2.43.0


From eb3eb78affb1b25f74a0a2567a0f3a8168c483a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 140/160] fix: name a guided section of an FDF by its GUID,
 without the attributes behind it

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 01800c5..31df2a0 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -175,10 +175,10 @@ class FdfParser(HashFileParser):
                         while self._BracketCount > 0:  # go until we get our bracket back
                             sline = self.GetNextLine().strip("}{ ")
                             # SECTION GUIDED EE4E5898-3914-4259-9D6E-DC7BD79403CF
-                            if sline.upper().startswith("SECTION GUIDED"):  # get the guided section
-                                section_def = sline[14:].strip().split("=", 1)
+                            guided = re.match(r"SECTION\s+GUIDED\s+(\S*)", sline, re.IGNORECASE)
+                            if guided:  # get the guided section
                                 # EE4E5898-3914-4259-9D6E-DC7BD79403CF in this example
-                                sectionType = section_def[0].strip()
+                                sectionType = guided.group(1)
                                 if sectionType not in self.FVs[section]["Files"][currentName]:
                                     self.FVs[section]["Files"][currentName][sectionType] = {}
                                 # TODO support guided sections
-- 
2.43.0


From 952b203a4f07ee04fa4ee48bc5b49264e5e8b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 141/160] fix: do not report the definitions of a DSC's
 components sections as components

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index def1c07..dd9c91b 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -392,6 +392,10 @@ class DscParser(HashFileParser):
                 if self.SECTION_REGEX.match(line.lower()):
                     continue
 
+                # Definitions, for example, are not components
+                if ".inf" not in line.lower():
+                    continue
+
                 # This component has overrides we need to handle
                 if line.strip().endswith("{"):
                     line = str(line)
-- 
2.43.0


From dfd20c613d667c1aa66aeffe8afdf41bd59cc5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 142/160] fix: platform models with different libraries or
 default stores are not equal

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index bebab4d..374f36b 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -163,6 +163,10 @@ class dsc:
             return False
         if other.defines != self.defines:
             return False
+        if other.libraries != self.libraries:
+            return False
+        if other.default_stores != self.default_stores:
+            return False
         return True
 
 
-- 
2.43.0


From dc88aa583c4e1b6c244da831db02dfad5a6b34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 143/160] fix: bring the row of a module up to date when its
 INF changed since the previous scan

---
 edk2toollib/database/tables/inf_table.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/database/tables/inf_table.py b/edk2toollib/database/tables/inf_table.py
index 3b5b453..5be2e08 100644
--- a/edk2toollib/database/tables/inf_table.py
+++ b/edk2toollib/database/tables/inf_table.py
@@ -50,27 +50,33 @@ class InfTable(TableGenerator):
         all_inf = {inf.path: inf for inf in session.query(Inf).all()}
         all_source = {source.path: source for source in session.query(Source).all()}
         all_libs = {lib.name: lib for lib in session.query(Library).all()}
-        to_add = []
+        to_add = {}
         for entry, source_list, lib_list in inf_entries:
             # Could parse a Windows INF file, which is not a EDKII INF file
             # and won't have a guid. GUIDS are required for INFs so we can
             # assume if it does not have a guid, its the wrong type of INF
             if entry.guid == "":
                 continue
-            if entry.path in all_inf:
+            if entry.path in to_add:
                 continue
             for source in source_list:
                 if source not in all_source:
                     all_source[source] = Source(path=source)
-                entry.sources.append(all_source[source])
             for lib in lib_list:
                 if lib not in all_libs:
                     all_libs[lib] = Library(name=lib)
-                entry.libraries.append(all_libs[lib])
-            to_add.append(entry)
-            all_inf[entry.path] = entry
 
-        session.add_all(to_add)
+            # The INF may have changed since the previous parse
+            inf = all_inf.get(entry.path, entry)
+            inf.guid = entry.guid
+            inf.library_class = entry.library_class
+            inf.package_name = entry.package_name
+            inf.module_type = entry.module_type
+            inf.sources = [all_source[source] for source in dict.fromkeys(source_list)]
+            inf.libraries = [all_libs[lib] for lib in dict.fromkeys(lib_list)]
+            to_add[entry.path] = inf
+
+        session.add_all(to_add.values())
 
         logging.debug(
             f"{self.__class__.__name__}: Parsed {len(inf_entries)} .inf files took; "
-- 
2.43.0


From 5fc7d6a16f3d6026fa9e81b2bfedfda9c807d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 144/160] fix: do not report a directory named like a DEC file
 as a package

---
 edk2toollib/database/tables/package_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 7471d16..ce95a31 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -52,6 +52,9 @@ class PackageTable(TableGenerator):
 
         packages_to_add = []
         for file in Path(pathobj.WorkspacePath).rglob(DEC_EXTENSION):
+            if not file.is_file():
+                continue
+
             pkg_name = file.parent.name
             containing_repo = PackageTable.get_repo_name(repo)
             repo_path = None
-- 
2.43.0


From cf506c90ba934d1431191ce830539a4cc1d4d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 145/160] fix: keep the end of the comment out of the license
 of a source file

---
 edk2toollib/database/tables/source_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index 444594e..7d8e4c0 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -81,7 +81,8 @@ class SourceTable(TableGenerator):
         with open(filename, "r", encoding="cp850") as f:
             lines = f.readlines()
             for line in lines:
-                match = re.search(r"SPDX-License-Identifier:\s*(.*)$", line)  # TODO: This is not a standard format.
+                # TODO: This is not a standard format.
+                match = re.search(r"SPDX-License-Identifier:\s*(.*?)\s*(?:\*+/.*)?$", line)
                 if match:
                     license = match.group(1)
 
-- 
2.43.0


From 393216b030e36eadd00c5bd86e60074db5244229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 146/160] fix: associate a module with the package that
 contains it, not with one of the same name

---
 edk2toollib/database/tables/instanced_inf_table.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 61767de..5da8213 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -80,7 +80,7 @@ class InstancedInfTable(TableGenerator):
         table.
         """
         all_sources = {source.path: source for source in session.query(Source).all()}
-        all_packages = {package.name: package for package in session.query(Package).all()}
+        all_packages = session.query(Package).all()
         all_repos = {
             (repo.name, repo.path): repo for repo in session.query(Repository).filter(Repository.path is not None).all()
         }
@@ -104,7 +104,16 @@ class InstancedInfTable(TableGenerator):
                     sources.append(Source(path=src))
                     all_sources[src] = sources[-1]
 
-            package = None if e["PACKAGE"] is None else all_packages.get(e["PACKAGE"])
+            # Packages in different directories may have the same name, prefer the one that contains the INF
+            package = max(
+                (package for package in all_packages if package.name == e["PACKAGE"]),
+                key=lambda package: (
+                    len(Path(package.path).parts)
+                    if Path(e["FULL_PATH"]).is_relative_to(Path(self.pathobj.WorkspacePath, package.path))
+                    else -1
+                ),
+                default=None,
+            )
             if package is not None:
                 repo = package.repository
             else:
-- 
2.43.0


From 05af7229507b6d3d482feca07a6c5e28053eede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 147/160] fix: do not fail on an FDF that lists an INF which
 does not exist, but warn like for any other INF that is not built

---
 edk2toollib/database/tables/instanced_fv_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_fv_table.py b/edk2toollib/database/tables/instanced_fv_table.py
index da758ef..62dfeef 100644
--- a/edk2toollib/database/tables/instanced_fv_table.py
+++ b/edk2toollib/database/tables/instanced_fv_table.py
@@ -65,8 +65,9 @@ class InstancedFvTable(TableGenerator):
                 # However in the database, we want the closest match, i.e. "MyPkg/../MyPkg.inf", even if
                 # they are providing ("Subfolder/MyPkg/../MyPkg.inf"). "GetEdk2RelativePathFromAbsolutePath"
                 # always returns the relative path from the closest package path.
-                inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
-                inf = self.pathobj.GetEdk2RelativePathFromAbsolutePath(inf)
+                full_inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+                if full_inf is not None:
+                    inf = self.pathobj.GetEdk2RelativePathFromAbsolutePath(full_inf)
                 inf_list.append(Path(inf).as_posix())
 
             filtered = []
-- 
2.43.0


From 4d13257542c04597c2b1167529707472cbccf9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 148/160] fix: an authenticated variable with a certificate of
 unknown type is rejected

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 5183dd0..3d0aadf 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1311,6 +1311,8 @@ class EfiVariableAuthentication2(CommonUefiStructure):
             raise Exception("Invalid File Steam")
         self.time = EfiTime(decodefs=fs)
         self.auth_info = WinCert.factory(fs)
+        if self.auth_info is None:
+            raise ValueError("Invalid certificate type")
         self.payload = None
         self.sig_list_payload = None
 
-- 
2.43.0


From 957eb99e308077e04417a3c873e982e3503d0b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 149/160] fix: keep the PCDs of a build report whose value
 holds an equals sign, a colon or a brace

---
 .../uefi/edk2/parsers/buildreport_parser.py        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index f138bd3..bd7a8e7 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -9,6 +9,7 @@
 
 import logging
 import os
+import re
 from enum import Enum
 from typing import Optional
 
@@ -47,6 +48,12 @@ class ModuleSummary(object):
         self.FvName = None
         self.pathConverter = pathconverter
 
+    @staticmethod
+    def _IsOpenArray(line: str) -> bool:
+        """Whether the value on the line is an array that continues on the next line; braces in text do not count."""
+        line = re.sub(r'"[^"]*"', "", line)
+        return line.count("{") != line.count("}")
+
     def Parse(self) -> None:
         """Parses the Module summary object."""
         inPcdSection = False
@@ -138,11 +145,12 @@ class ModuleSummary(object):
                             tokenspace = line
 
                         # this is the main line of the PCD value
-                        elif line.count("=") == 1 and line.count(":") == 1:
+                        # (what follows the first "=" is the value, which may hold any character)
+                        elif "=" in line and line.partition("=")[0].count(":") == 1:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += " " + self._RawContent[i].rstrip()
-                            while line.count("{") != line.count("}"):
+                            while self._IsOpenArray(line):
                                 i += 1
                                 line += " " + self._RawContent[i].rstrip()
 
@@ -154,7 +162,7 @@ class ModuleSummary(object):
                             self.PCDs[tokenspace + "." + token2] = token.strip()
 
                         # this is the secondary lines of PCD values showing Defaults
-                        elif line.count(":") == 0 and line.count("=") == 1:
+                        elif "=" in line and line.partition("=")[0].count(":") == 0:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += self._RawContent[i].rstrip()
-- 
2.43.0


From 8b18fcfdf8642978e876a6bfb6eaccacc1c25993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 150/160] fix: skip all lines of an array of default bytes in a
 build report instead of taking them for a token space

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index bd7a8e7..2b14605 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -166,6 +166,9 @@ class ModuleSummary(object):
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += self._RawContent[i].rstrip()
+                            while self._IsOpenArray(line):
+                                i += 1
+                                line += self._RawContent[i].rstrip()
 
                     elif inDepSection:
                         if line == "Dependency Expression (DEPEX) from INF":
-- 
2.43.0


From c7d76fde10d8da045eb2e80552c7fb963a6908d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 151/160] fix: list the binaries of an INF by their path
 instead of by the name of their type

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 0db99f5..a562273 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -203,7 +203,9 @@ class InfParser(HashFileParser):
                 if sline.strip()[0] == "[":
                     InBinariesSection = False
                 else:
-                    self.Binaries.append(sline.partition("|")[0].strip())
+                    # an entry is the type of the binary, its path and optional fields; a path alone is accepted too
+                    fields = [field.strip() for field in sline.split("|")]
+                    self.Binaries.append(fields[1] if len(fields) > 1 else fields[0])
                     continue
 
             # check for different sections
-- 
2.43.0


From 9024f01709d6a1c3e50fd69ad6b6b92ff2112ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 152/160] fix: leave the brace that opens a structured PCD
 declaration out of the PCD's id

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 5ad2fcb..b7f12f9 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -153,7 +153,8 @@ class PcdDeclarationEntry:
         self.default_value = op[1].strip()
         # if we don't know what the type and id, it's because it's structured
         self.type = op[2].strip() if len(op) > 2 else "STRUCTURED_PCD"
-        self.id = op[3].strip() if len(op) > 2 else "STRUCTURED_PCD"
+        # the brace that opens a structured PCD's block is no part of its id
+        self.id = op[3].partition("{")[0].strip() if len(op) > 2 else "STRUCTURED_PCD"
 
 
 class DecParser(HashFileParser):
-- 
2.43.0


From 674d1a796ddb8d536754e167c977e258d6f8fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 153/160] fix: accept a PCD declaration whose default value is
 an expression with a bitwise or

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index b7f12f9..d3d733a 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -135,7 +135,14 @@ class PcdDeclarationEntry:
 
         # Regular expression pattern to match the symbol '|' that is not inside quotes
         pattern = r'\|(?=(?:(?:[^\'"]*(?:\'[^\']*\'|"[^"]*"))*[^\'"]*)$)'
-        op = re.split(pattern, sp[2])
+        op = []
+        for part in re.split(pattern, sp[2]):
+            # nor inside parentheses, where it is the operator of an expression
+            brackets = re.sub(r'\'[^\']*\'|"[^"]*"', "", op[-1]) if op else ""
+            if brackets.count("(") > brackets.count(")"):
+                op[-1] += "|" + part
+            else:
+                op.append(part)
 
         # if it's 2 long, we need to check that it's a structured PCD
         if len(op) == 2 and op[0].count(".") > 0:
-- 
2.43.0


From 3977bd3ff5c2454b7306db710edf7577b1271700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 154/160] fix: read the whole wrapped path of a module below a
 folder with .inf in its name from a build report

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 2b14605..10a2a52 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -191,7 +191,7 @@ class ModuleSummary(object):
                                 logging.debug("Parsing Mod: %s" % value)
                                 self.Name = value
                             elif key == "module inf path":
-                                while ".inf" not in value.lower():
+                                while not value.lower().endswith(".inf"):
                                     i += 1
                                     value += self._RawContent[i].strip()
                                 self.InfPath = value.replace("\\", "/")
-- 
2.43.0


From ce1fbf83db7c32aea8f123c84a9eb64afce2ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 155/160] fix: keep a build setting whose value holds an equals
 sign

---
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 607496d..46091a8 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -48,7 +48,7 @@ class TargetTxtParser(HashFileParser):
             if sline is None or len(sline) < 1:
                 continue
 
-            if sline.count("=") == 1:
+            if "=" in sline:
                 tokens = sline.split("=", 1)
                 self.Dict[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.debug("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
-- 
2.43.0


From e57e27c299b5425bbe65110417d164d9f34a338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 156/160] fix: do not take the first character of a variable's
 name for a byte order mark

---
 edk2toollib/uefi/edk2/variable_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 9527d1c..5f94630 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -154,7 +154,7 @@ class VariableHeader(object):
 
         # Finally, load the data.
         data_offset = self.StructSize
-        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16")
+        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16-le")
         self.Name = self.Name[:-1]  # Strip the terminating char.
         data_offset += self.NameSize
         self.Data = in_bytes[data_offset : (data_offset + self.DataSize)]
@@ -191,7 +191,7 @@ class VariableHeader(object):
         if len(name_bytes) != self.NameSize or len(data_bytes) != self.DataSize:
             raise ValueError("Variable name or data is cut short!")
 
-        self.Name = name_bytes.decode("utf-16")[:-1]  # Strip the terminating char.
+        self.Name = name_bytes.decode("utf-16-le")[:-1]  # Strip the terminating char.
         self.Data = data_bytes
         return self
 
-- 
2.43.0


From 7865d4a6d420164f1d262f469973406b29837cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 157/160] fix: do not take the first character of a variable
 policy's name for a byte order mark

---
 edk2toollib/uefi/edk2/variable_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 312a3df..8b8291f 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -63,7 +63,7 @@ class VariableLockOnVarStatePolicy(object):
         if string_end is None:
             raise ValueError("String end not detected!")
 
-        self.Name = buffer[:string_end].decode("utf-16").strip("\x00")
+        self.Name = buffer[:string_end].decode("utf-16-le").strip("\x00")
 
         return buffer[string_end:]
 
@@ -231,7 +231,7 @@ class VariablePolicyEntry(object):
 
         self.Name = None
         if self.OffsetToName != self.Size:
-            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
+            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16-le").strip("\x00")
 
         self.LockPolicy = None
         if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
-- 
2.43.0


From 1b541f46482070fe4c4e63bee8a4c9c65b665475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 158/160] fix: do not leave a partial vswhere.exe behind when
 its download is interrupted

---
 edk2toollib/windows/locate_tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index b710d94..166d34f 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -72,9 +72,11 @@ def _DownloadVsWhere(unpack_folder: os.PathLike = None) -> None:
     # check if we have the vswhere file already downloaded
     if not os.path.isfile(out_file_name):
         try:
-            # Download the file and save it locally under `temp_file_name`
-            with urllib.request.urlopen(__URL) as response, open(out_file_name, "wb") as out_file:
-                out_file.write(response.read())
+            # Download the whole file before saving it, an interrupted download must not be taken for the tool
+            with urllib.request.urlopen(__URL) as response:
+                content = response.read()
+            with open(out_file_name, "wb") as out_file:
+                out_file.write(content)
         except urllib.error.HTTPError as e:
             logging.error("We ran into an issue when getting VsWhere")
             raise e
-- 
2.43.0


From f9064ad08a53853c3c78c2670c62e1b220e720c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 159/160] fix: an authenticated variable can have several
 signers

---
 ...authenticated_variables_structure_support.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 3d0aadf..206d265 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1458,6 +1458,8 @@ class EfiVariableAuthentication2Builder(object):
 
         # Start setting up the builder
         self.signature_builder = pkcs7.PKCS7SignatureBuilder()
+        self.signed_digest = None
+        self.additional_certificates = []
 
         efi_attributes = EfiVariableAttributes(attributes)
 
@@ -1545,8 +1547,10 @@ class EfiVariableAuthentication2Builder(object):
         digest = kwargs.get("digest", self.digest)
         indent = kwargs.get("indent", " " * 4)
 
-        # Set up the databuffer that will be signed
-        self.signature_builder = self.signature_builder.set_data(digest)
+        # Set up the databuffer that will be signed; it can only be set once and is the same for every signer
+        if digest != self.signed_digest:
+            self.signature_builder = self.signature_builder.set_data(digest)
+            self.signed_digest = digest
 
         logging.info("")
         logging.info("Signing with Certificate: ")
@@ -1566,8 +1570,8 @@ class EfiVariableAuthentication2Builder(object):
             logging.info("%sIssuer: %s", indents, cert.issuer)
             logging.info("%sSubject: %s", indents, cert.subject)
 
-            # Add the certificate for verification
-            self.signature_builder = self.signature_builder.add_certificate(cert)
+            # Add the certificate for verification (once all signers are known, adding a signer may drop it)
+            self.additional_certificates.append(cert)
 
     def finalize(self, omit_content_info: bool = True) -> EfiVariableAuthentication2:
         """Finalizes the signature and returns a EfiVariableAuthentication2.
@@ -1587,7 +1591,10 @@ class EfiVariableAuthentication2Builder(object):
         options = [pkcs7.PKCS7Options.DetachedSignature, pkcs7.PKCS7Options.Binary, pkcs7.PKCS7Options.NoAttributes]
 
         # The signature is enclosed in a asn1 content info structure
-        self.signature = self.signature_builder.sign(Encoding.DER, options)
+        signature_builder = self.signature_builder
+        for cert in self.additional_certificates:
+            signature_builder = signature_builder.add_certificate(cert)
+        self.signature = signature_builder.sign(Encoding.DER, options)
 
         # Up until recently including the content info section (on tianocore edk2 based implementations)
         # will cause UEFI to return `SECURITY_VIOLATION``
-- 
2.43.0


From 8f3dc2fed57214577098473baded1f6ee9125c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 160/160] fix: replace each macro reference of a line in its
 own place

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 659f862..bc576f5 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -384,19 +384,23 @@ class BaseParser(object):
         # use line to avoid change by handling above
         rep = line.count("$(")
         index = 0
+        shift = 0  # of what follows in the result, by what was replaced so far
         while rep > 0:
             start = line.find("$(", index)
             end = line.find(")", start)
 
+            if end == -1:
+                break  # not a reference
             token = line[start + 2 : end]
-            replacement_token = line[start : end + 1]
             self.Logger.debug("Token is %s" % token)
             v = self._FindReplacementForToken(token, replace)
             if v is not None:
                 # prevent circular variable replacement
                 if f"$({token})" in v:
                     v = ""
-                result = result.replace(replacement_token, v, 1)
+                # in its place, as a value may hold a reference as well
+                result = result[: start + shift] + v + result[end + 1 + shift :]
+                shift += len(v) - (end + 1 - start)
 
             index = end + 1
             rep = rep - 1
-- 
2.43.0

