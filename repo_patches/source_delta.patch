From 09db003e4d81397df7da5e2abaa379972f90c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:30 +0000
Subject: [PATCH 01/13] fix: literal length of pieces with a backslash

---
 src/os_urlpattern/parse_utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 56a46e5..003a902 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -451,11 +451,10 @@ class ParsedPiece(object):
             while idx < length_base:
                 c = piece[idx]
                 if c == Symbols.BRACKETS_L or c == Symbols.BRACKETS_R:
-                    if idx == 0 or piece[idx - 1] != Symbols.BACKSLASH:
-                        length += -1
-                elif c == Symbols.BACKSLASH:
-                    if piece[idx + 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
+                elif c == Symbols.BACKSLASH:  # skip the escaped char
+                    length += -1
+                    idx += 1
                 elif c == Symbols.BRACES_L:
                     if piece[idx - 1] == Symbols.BRACKETS_R:
                         e = piece.index(Symbols.BRACES_R, idx)
-- 
2.43.0


From 9345b41650930000b1c0443245f38def65388a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:30 +0000
Subject: [PATCH 02/13] fix: pattern class ending with an escaped backslash

---
 src/os_urlpattern/parse_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 003a902..8c0b05d 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -654,7 +654,8 @@ def parse_pattern_string(pattern_string):
                 if idx < 0:
                     raise InvalidPatternException(
                         "Missing '%s'" % Symbols.BRACKETS_R)
-                elif pattern_string[idx - 1] == Symbols.BACKSLASH:
+                escape = pattern_string[idx_s:idx]
+                if (len(escape) - len(escape.rstrip(Symbols.BACKSLASH))) % 2:
                     continue
                 break
             if idx + 1 < l:
-- 
2.43.0


From b82456ec6d8e2abd165425a1f52b8e3d2ab549e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:30 +0000
Subject: [PATCH 03/13] fix: reject query keys with invalid chars

---
 src/os_urlpattern/parse_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 8c0b05d..fd2fdff 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -100,6 +100,9 @@ def normalize(raw_string, reserved_chars=None):
         reserved_chars ([type], optional): Defaults to None. Reserved chars
             which are not to be normalized.
 
+    Raises:
+        InvalidCharException: If there is an invalid char.
+
     Returns:
         str: The normalized string.
 
@@ -114,6 +117,9 @@ def normalize(raw_string, reserved_chars=None):
     frag = StringIO()
     last_c = None
     for c in raw_string:
+        if c not in CHAR_RULE_DICT and \
+                (not reserved_chars or c not in reserved_chars):
+            raise InvalidCharException("Invalid char %r" % c)
         if c in ASCII_DIGIT_SET:
             if last_c and last_c not in ASCII_DIGIT_SET:
                 frag.seek(0)
-- 
2.43.0


From b12da5201db2ed7f87c9f3b4af7b9673d2628fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:30 +0000
Subject: [PATCH 04/13] fix: parse_url raises IndexError on '' and '#'

---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index fd2fdff..c9317fb 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -172,11 +172,11 @@ def parse_url(url):
     """
     scheme, netloc, path, params, query, fragment = urlparse(url)
     if not fragment:
-        if url[-1] != Symbols.NUMBER:
+        if url[-1:] != Symbols.NUMBER:
             fragment = None
-            if not query and url[-1] != Symbols.QUESTION:
+            if not query and url[-1:] != Symbols.QUESTION:
                 query = None
-        elif not query and url[-2] != Symbols.QUESTION:
+        elif not query and url[-2:-1] != Symbols.QUESTION:
             query = None
     elif not query:
         if url[len(url) - len(fragment) - 2] != Symbols.QUESTION:
-- 
2.43.0


From 91f4b199195c42fef0718f069add5a2044e4bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:30 +0000
Subject: [PATCH 05/13] fix: pattern-make -c fails since readfp was removed in
 Python 3.12

---
 src/os_urlpattern/cmdline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index cad3e69..4c3e111 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -91,7 +91,10 @@ class MakePatternCommand(Command):
     def process_args(self, args):
         super(MakePatternCommand, self).process_args(args)
         if args.config:
-            self._config.readfp(args.config[0])
+            # readfp was removed since Python 3.12
+            read_file = getattr(self._config, 'read_file', None) \
+                or self._config.readfp
+            read_file(args.config[0])
 
     def add_argument(self, parser):
         super(MakePatternCommand, self).add_argument(parser)
-- 
2.43.0


From ff25bdfcfacb959708385801294a630176e2ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:30 +0000
Subject: [PATCH 06/13] fix: only ASCII digits are valid in a pattern unit num

---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index c9317fb..b8c61c7 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -8,7 +8,7 @@ from collections import namedtuple
 
 from .compat import ParseResult, StringIO, urlparse
 from .definition import (ASCII_DIGIT_SET, BLANK_TUPLE, CHAR_RULE_DICT,
-                         DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET,
+                         DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET, DIGIT_SET,
                          EMPTY_TUPLE, MIXED_RULE_SET,
                          QUERY_PART_RESERVED_CHARS, RULE_SET, SIGN_RULE_SET,
                          BasePatternRule, Symbols)
@@ -672,7 +672,7 @@ def parse_pattern_string(pattern_string):
                         raise InvalidPatternException(
                             "Missing '%s'" % Symbols.BRACES_R)
                     num_str = pattern_string[old_idx:idx]
-                    if not num_str.isdigit():
+                    if not num_str or set(num_str) - DIGIT_SET:
                         raise InvalidPatternException(
                             "Invalid num %r" % num_str)
 
@@ -728,7 +728,7 @@ def parse_pattern_unit_string(pattern_unit_string):
         elif pattern_unit_string[-1] == Symbols.BRACES_R:
             t = pattern_unit_string.rfind(Symbols.BRACES_L)
             num_str = pattern_unit_string[t + 1:-1]
-            if not num_str.isdigit():
+            if not num_str or set(num_str) - DIGIT_SET:
                 raise InvalidPatternException("Invalid num %r" % num_str)
             num = int(num_str)
         elif pattern_unit_string[-1] == Symbols.PLUS:
-- 
2.43.0


From 442187f6c9cdd5293d0084050064899f7d571066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:30 +0000
Subject: [PATCH 07/13] fix: reject pattern unit with empty rule

---
 src/os_urlpattern/parse_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index b8c61c7..4a0b33d 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -751,6 +751,8 @@ def parse_pattern_unit_string(pattern_unit_string):
                 raise InvalidPatternException("Invalid rule %r" % rule)
             rules.add(rule)
             idx += n
+    if not rules:
+        raise InvalidPatternException('Empty rule')
     if (num > 0 and len(rules) > num) or num == 0:
         raise InvalidPatternException('Insufficient number')
     return rules, num
-- 
2.43.0


From d3b0b5bc8d741eec641e1eeecd3fc56fa94baf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:30 +0000
Subject: [PATCH 08/13] fix: length matcher drops patterns of the same length

---
 src/os_urlpattern/pattern_matcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 7c57c06..695dc3e 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -92,7 +92,9 @@ class LengthPatternViewMatcher(ViewMatcher):
 
     def add_match_node(self, match_node):
         length = match_node.pattern.pattern_units[0].num
-        self._matchers[length] = [match_node]
+        if length not in self._matchers:
+            self._matchers[length] = []
+        self._matchers[length].append(match_node)
 
     def match(self, parsed_piece):
         return [] if parsed_piece.piece_length not in self._matchers \
-- 
2.43.0


From db023757dd5179d07fb44339aa3dff40531e8611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:30 +0000
Subject: [PATCH 09/13] fix: matching a pattern string raises AttributeError

---
 src/os_urlpattern/pattern_matcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 695dc3e..3205e9d 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -307,6 +307,8 @@ class PatternMatcher(object):
               Bound meta data can be accessed with node.meta.
         """
         url_meta, parsed_pieces = parse(url)
+        if isinstance(parsed_pieces[0], MatchPattern):
+            raise ValueError('Invalid URL')
         sid = fuzzy_digest(url_meta, parsed_pieces)
         if sid in self._matchers:
             return self._matchers[sid].match(parsed_pieces)
-- 
2.43.0


From fd75413097cb70c9636586089f7baec612195cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:17 +0000
Subject: [PATCH 10/13] fix: mixed and last-dot-split patterns with a mixed
 literal part never match

A pattern such as /[0-9a-z]{6}[\.]mp3 was made from URLs it could not match:
the units of the literal mp3 were not merged like the view of the piece does.
---
 src/os_urlpattern/pattern_matcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 3205e9d..98935dc 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -158,8 +158,8 @@ class FuzzyPatternViewMatcher(ViewMatcher):
 VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
-    (MixedView, MultiPatternViewMatcher),
-    (LastDotSplitFuzzyView, MultiPatternViewMatcher),
+    (MixedView, MixedPatternViewMatcher),
+    (LastDotSplitFuzzyView, MixedPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
 ]
-- 
2.43.0


From 07378c80190154110f687a5b75fde73afae6cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:17 +0000
Subject: [PATCH 11/13] fix: view of last path patterns with a mixed file ext
 or file name

main[\.][0-9a-z]{6} is made from the mixed view and [\-a-z]+[\.]mp3 from the
last-dot-split view, both were deduced as the other one and never matched.
---
 src/os_urlpattern/parsed_piece_view.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/parsed_piece_view.py b/src/os_urlpattern/parsed_piece_view.py
index 00bcb75..120382f 100644
--- a/src/os_urlpattern/parsed_piece_view.py
+++ b/src/os_urlpattern/parsed_piece_view.py
@@ -138,6 +138,26 @@ class FuzzyView(ParsedPieceView):
         return self._parsed_pieces
 
 
+def _is_file_ext(name_unit, ext_units):
+    """Whether the units after the dot can only come from LastDotSplitFuzzyView.
+
+    Args:
+        name_unit (PatternUnit): The unit before the dot.
+        ext_units (sequence): The units after the dot.
+
+    Returns:
+        bool: Whether the pattern is like <name>.<ext>
+    """
+    for unit in ext_units:
+        if len(unit.rules) > 1 or unit.rules - DIGIT_AND_ASCII_RULE_SET:
+            return False
+    if len(ext_units) == 1:
+        return True
+    return len(name_unit.rules) > 1 \
+        and len(ext_units) <= 2 \
+        and all([unit.is_literal() for unit in ext_units])
+
+
 def view_cls_from_pattern(pattern, is_last_path=False):
     """Get ParsedPieceView class from pattern.
 
@@ -169,11 +189,10 @@ def view_cls_from_pattern(pattern, is_last_path=False):
                 else:
                     view_cls = MultiView
         if is_last_path \
-                and len(pattern_units) == 3 \
                 and view_cls != PieceView \
                 and len(pattern_units[1].rules) == 1 \
                 and pick(pattern_units[1].rules) == BasePatternRule.DOT \
-                and not (set(pattern_units[-1].rules) - DIGIT_AND_ASCII_RULE_SET):
+                and _is_file_ext(pattern_units[0], pattern_units[2:]):
             view_cls = LastDotSplitFuzzyView
 
     return view_cls
-- 
2.43.0


From bdbc09c30be01b1403a932ff7d2a4a6cd928c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:43 +0000
Subject: [PATCH 12/13] fix: clustering URLs with more levels than the
 recursion limit raises RecursionError

A URL with some 500 path segments, or a segment with as many runs, broke
off the clustering of all URLs.
---
 src/os_urlpattern/pattern_cluster.py | 17 +++++++++-------
 src/os_urlpattern/utils.py           | 29 +++++++++++++++-------------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/os_urlpattern/pattern_cluster.py b/src/os_urlpattern/pattern_cluster.py
index 4fb9584..f3eedde 100644
--- a/src/os_urlpattern/pattern_cluster.py
+++ b/src/os_urlpattern/pattern_cluster.py
@@ -623,14 +623,17 @@ class ClusterProcessor(object):
         return sum([c.pattern_num for c in itervalues(self._pattern_clusters)])
 
     def process(self):
-        self._process()
-        if self.is_last_level():
-            return
-
-        self._create_next_level_processors()
+        # not recursive, there may be more levels than the recursion limit
+        processors = [self]
+        while processors:
+            processor = processors.pop()
+            processor._process()
+            if processor.is_last_level():
+                continue
 
-        for processor in itervalues(self._next_level_processors):
-            processor.process()
+            processor._create_next_level_processors()
+            processors.extend(
+                reversed(list(processor.next_level_processors)))
 
     def _create_next_level_processors(self):
 
diff --git a/src/os_urlpattern/utils.py b/src/os_urlpattern/utils.py
index b72accc..1587ddd 100644
--- a/src/os_urlpattern/utils.py
+++ b/src/os_urlpattern/utils.py
@@ -157,20 +157,23 @@ def dump_tree(root):
     Yields:
         list: List contains nodes from root to leaf as one path.
     """
-    olist = []
-
-    def _dump(node, _nodes):
-        _nodes.append(node)
-        if node.leaf():
-            yield _nodes
-            return
-        for child in node.children:
-            for nodes in _dump(child, _nodes):
-                yield nodes
-            _nodes.pop(-1)
-
-    for nodes in _dump(root, olist):
+    # not recursive, there may be more levels than the recursion limit
+    nodes = [root]
+    children = [iter(root.children)]
+    if root.leaf():
         yield nodes
+    while children:
+        node = next(children[-1], None)
+        if node is None:
+            children.pop()
+            nodes.pop()
+            continue
+        nodes.append(node)
+        if node.leaf():
+            yield nodes
+            nodes.pop()
+        else:
+            children.append(iter(node.children))
 
 
 class LogSpeedAdapter(logging.LoggerAdapter):
-- 
2.43.0


From e3de4af5f23028752448c7e97802fd852316baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:43 +0000
Subject: [PATCH 13/13] fix: matching URLs with more levels than the recursion
 limit raises RecursionError

---
 src/os_urlpattern/pattern_matcher.py | 37 ++++++++++++++--------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 98935dc..704d991 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -209,20 +209,21 @@ class PatternMatchNode(TreeNode):
             matched_nodes (list of PatternMatchNode): Filled with all of the
                 matched leaf nodes.
         """
-        parsed_piece = parsed_pieces[idx]
-        for matcher in self._view_matchers:
-            nodes = matcher.match(parsed_piece)
-            if not nodes:
-                continue
-            if nodes[0].leaf():
-                matched_nodes.extend(nodes)
-                continue
-            self._deep_match(nodes, parsed_pieces, idx + 1,
-                             matched_nodes)
-
-    def _deep_match(self, nodes, parsed_pieces, idx, matched_nodes):
-        for node in nodes:
-            node.match(parsed_pieces, idx, matched_nodes)
+        # not recursive, there may be more levels than the recursion limit
+        stack = [(self, idx)]
+        while stack:
+            node, idx = stack.pop()
+            parsed_piece = parsed_pieces[idx]
+            deeper = []
+            for matcher in node._view_matchers:
+                nodes = matcher.match(parsed_piece)
+                if not nodes:
+                    continue
+                if nodes[0].leaf():
+                    matched_nodes.extend(nodes)
+                    continue
+                deeper.extend([(n, idx + 1) for n in nodes])
+            stack.extend(reversed(deeper))
 
     def _get_matcher(self, view_cls):
         s = 0
@@ -256,10 +257,10 @@ class PatternMatchNode(TreeNode):
         return child, is_new
 
     def __lt__(self, other):
-        if id(self) == id(other) or self.parrent is None:
-            return False
-        if self.pattern == other.pattern:
-            return self.parrent < other.parrent
+        while self.pattern == other.pattern:
+            if id(self) == id(other) or self.parrent is None:
+                return False
+            self, other = self.parrent, other.parrent
         return self.pattern < other.pattern
 
 
-- 
2.43.0

