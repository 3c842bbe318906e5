From 8775047249c59fd3bfd93ecd1d0cd3f760a77134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:15 +0000
Subject: [PATCH 01/15] fix: match mixed patterns which contain literal parts

Mixed and last-dot-split patterns were indexed unit by unit, but the
views used for looking them up join consecutive letters, digits and '%'.
A pattern like [0-9a-z]{6}[_]ab1 (made from ab12cd_ab1, ...) never
matched the URLs it was generated from.
---
 src/os_urlpattern/pattern_matcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 7c57c06..440cfbe 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -156,8 +156,8 @@ class FuzzyPatternViewMatcher(ViewMatcher):
 VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
-    (MixedView, MultiPatternViewMatcher),
-    (LastDotSplitFuzzyView, MultiPatternViewMatcher),
+    (MixedView, MixedPatternViewMatcher),
+    (LastDotSplitFuzzyView, MixedPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
 ]
-- 
2.43.0


From 64d635db7170830a088d2b51a94112c1d48d303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 02/15] fix: parse the escaped backslash in patterns and pieces

A URL with a backslash generates [\\\\], in which the closing bracket was
taken for an escaped one: the generated pattern could not be loaded, and
the literal length of the piece was counted wrong.
---
 src/os_urlpattern/parse_utils.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 56a46e5..ba79686 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -451,11 +451,10 @@ class ParsedPiece(object):
             while idx < length_base:
                 c = piece[idx]
                 if c == Symbols.BRACKETS_L or c == Symbols.BRACKETS_R:
-                    if idx == 0 or piece[idx - 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
                 elif c == Symbols.BACKSLASH:
-                    if piece[idx + 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
+                    idx += 1  # skip the escaped char
                 elif c == Symbols.BRACES_L:
                     if piece[idx - 1] == Symbols.BRACKETS_R:
                         e = piece.index(Symbols.BRACES_R, idx)
@@ -650,14 +649,13 @@ def parse_pattern_string(pattern_string):
                 last_rule = None
 
             idx_s = idx
-            while True:
-                idx = pattern_string.find(Symbols.BRACKETS_R, idx + 1)
-                if idx < 0:
-                    raise InvalidPatternException(
-                        "Missing '%s'" % Symbols.BRACKETS_R)
-                elif pattern_string[idx - 1] == Symbols.BACKSLASH:
-                    continue
-                break
+            idx += 1
+            while idx < l and pattern_string[idx] != Symbols.BRACKETS_R:
+                # A backslash escapes the following char.
+                idx += 2 if pattern_string[idx] == Symbols.BACKSLASH else 1
+            if idx >= l:
+                raise InvalidPatternException(
+                    "Missing '%s'" % Symbols.BRACKETS_R)
             if idx + 1 < l:
                 if pattern_string[idx + 1] == Symbols.BRACES_L:
                     old_idx = idx + 2
-- 
2.43.0


From b42a880d54bf31cd474fdc9fb4c9d7910061bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:27 +0000
Subject: [PATCH 03/15] fix: deduce the last-dot-split view from the pattern as
 it is clustered

Patterns such as [0-9_a-z]+[\\.]mp3 and [0-9_a-z]+[\\.] (extension of two
character spaces, or empty) were not recognised as last-dot-split, and
[a-z]{2}[\\.][0-9a-z]{7} was, although its extension can be of more parts
than that view splits. None of them matched the URLs they were generated
from.
---
 src/os_urlpattern/parsed_piece_view.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/os_urlpattern/parsed_piece_view.py b/src/os_urlpattern/parsed_piece_view.py
index 00bcb75..74804e1 100644
--- a/src/os_urlpattern/parsed_piece_view.py
+++ b/src/os_urlpattern/parsed_piece_view.py
@@ -2,7 +2,8 @@
 """
 from __future__ import unicode_literals
 
-from .definition import DIGIT_AND_ASCII_RULE_SET, BasePatternRule
+from .definition import (DIGIT_AND_ASCII_RULE_SET, MIXED_RULE_SET,
+                         BasePatternRule)
 from .parse_utils import ParsedPiece, fuzzy_join, mix
 from .utils import pick
 
@@ -169,11 +170,18 @@ def view_cls_from_pattern(pattern, is_last_path=False):
                 else:
                     view_cls = MultiView
         if is_last_path \
-                and len(pattern_units) == 3 \
                 and view_cls != PieceView \
                 and len(pattern_units[1].rules) == 1 \
-                and pick(pattern_units[1].rules) == BasePatternRule.DOT \
-                and not (set(pattern_units[-1].rules) - DIGIT_AND_ASCII_RULE_SET):
-            view_cls = LastDotSplitFuzzyView
+                and pick(pattern_units[1].rules) == BasePatternRule.DOT:
+            # LastDotSplitFuzzyView allows 2 letter/digit parts after the dot.
+            ext_units = pattern_units[2:]
+            if (len(ext_units) == 1
+                or (len(ext_units) in (0, 2)
+                    and len(pattern_units[0].rules) > 1
+                    and pattern_units[0].rules - MIXED_RULE_SET)) \
+                    and all([len(u.rules) == 1
+                             and pick(u.rules) in DIGIT_AND_ASCII_RULE_SET
+                             for u in ext_units]):
+                view_cls = LastDotSplitFuzzyView
 
     return view_cls
-- 
2.43.0


From 7bebbdec77ae3bf80ebdc6de640d9d1ceea942f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 04/15] fix: do not abort when the clock has not advanced
 between speed logs

LogSpeedAdapter divided by the elapsed wall-clock time, whatever the log
level: pattern-make and pattern-match died with ZeroDivisionError at the
5000th line when the clock was coarse, frozen or stepped back.
---
 src/os_urlpattern/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/utils.py b/src/os_urlpattern/utils.py
index b72accc..65c48d9 100644
--- a/src/os_urlpattern/utils.py
+++ b/src/os_urlpattern/utils.py
@@ -208,7 +208,8 @@ class LogSpeedAdapter(logging.LoggerAdapter):
             getattr(self.logger, name)(msg, *args, **kwargs)
 
     def _speed(self):
-        return self._count / (time.time() - self._start_time)
+        elapsed = time.time() - self._start_time
+        return self._count / elapsed if elapsed > 0 else 0.0
 
     def __enter__(self):
         self._start_time = time.time()
-- 
2.43.0


From a9384c4c84fe0c57b56eee1eba1748ae744052e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:57 +0000
Subject: [PATCH 05/15] fix: read the config file on Python 3.12

ConfigParser.readfp was removed in Python 3.12, pattern-make -c always
died with AttributeError.
---
 src/os_urlpattern/cmdline.py | 4 ++--
 src/os_urlpattern/compat.py  | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index cad3e69..e87feb1 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -17,7 +17,7 @@ from collections import Counter
 from itertools import chain
 
 from . import __version__
-from .compat import binary_stdin, binary_stdout
+from .compat import binary_stdin, binary_stdout, read_config
 from .config import get_default_config
 from .definition import DEFAULT_ENCODING
 from .exceptions import (InvalidCharException, InvalidPatternException,
@@ -91,7 +91,7 @@ class MakePatternCommand(Command):
     def process_args(self, args):
         super(MakePatternCommand, self).process_args(args)
         if args.config:
-            self._config.readfp(args.config[0])
+            read_config(self._config, args.config[0])
 
     def add_argument(self, parser):
         super(MakePatternCommand, self).add_argument(parser)
diff --git a/src/os_urlpattern/compat.py b/src/os_urlpattern/compat.py
index 7954151..74daeca 100644
--- a/src/os_urlpattern/compat.py
+++ b/src/os_urlpattern/compat.py
@@ -14,6 +14,7 @@ if _PY3:
     itervalues = operator.methodcaller("values")
     from urllib.parse import urlparse, ParseResult
     from configparser import ConfigParser
+    read_config = ConfigParser.read_file
     binary_stdin = sys.stdin.buffer
     binary_stdout = sys.stdout.buffer
 else:
@@ -25,5 +26,6 @@ else:
     itervalues = operator.methodcaller("itervalues")
     from urlparse import urlparse, ParseResult
     from ConfigParser import ConfigParser
+    read_config = ConfigParser.readfp
     binary_stdin = sys.stdin
     binary_stdout = sys.stdout
-- 
2.43.0


From 1783b14b5380916ac9086312b5146701c9abda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:03 +0000
Subject: [PATCH 06/15] fix: write pattern-make records in UTF-8 whatever the
 locale is

The URLs are read as UTF-8, but were printed in the encoding of stdout: an
internationalised host name killed the process with UnicodeEncodeError in
the middle of the output, and the remaining clusters were lost.
---
 src/os_urlpattern/cmdline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index e87feb1..4c8e191 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -149,7 +149,8 @@ class MakePatternCommand(Command):
                 e = time.time()
                 self._logger.debug('[CLUSTER] %d %.2fs', root.count, e - s)
                 for record in pformat(args.format_type, maker.url_meta, root):
-                    print(record)
+                    binary_stdout.write(record.encode(DEFAULT_ENCODING))
+                    binary_stdout.write(b'\n')
                 s = time.time()
 
     def run(self, args):
-- 
2.43.0


From c0880cb88538babb496cec604b4addc48965bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 07/15] fix: split clusters by pattern path, not by its hash

Two pattern paths with the same hash were merged into one cluster, whose
pattern does not match half of its URLs. Whether that happens depends on
PYTHONHASHSEED and on the width of the hash.
---
 src/os_urlpattern/pattern_cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_cluster.py b/src/os_urlpattern/pattern_cluster.py
index 4fb9584..8732940 100644
--- a/src/os_urlpattern/pattern_cluster.py
+++ b/src/os_urlpattern/pattern_cluster.py
@@ -659,7 +659,7 @@ def split_by_pattern(root):
     """
     tree_roots = {}
     for nodes in dump_tree(root):
-        pid = hash("/".join([str(p.pattern) for p in nodes]))
+        pid = "/".join([str(p.pattern) for p in nodes])
         if pid not in tree_roots:
             tree_roots[pid] = PiecePatternNode((EMPTY_PARSED_PIECE, None))
         sub_root = tree_roots[pid]
-- 
2.43.0


From 1c7dd2a54c7ad572ae44eca456d5c0d651d63cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 08/15] fix: keep all the patterns of the same length

[0-9a-z]{5} and [a-z0-9]{5} (or [0-9] and [0-9]{1}) are different patterns
of the same length, loading the second one made the first one disappear.
---
 src/os_urlpattern/pattern_matcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 440cfbe..9703dac 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -92,7 +92,9 @@ class LengthPatternViewMatcher(ViewMatcher):
 
     def add_match_node(self, match_node):
         length = match_node.pattern.pattern_units[0].num
-        self._matchers[length] = [match_node]
+        if length not in self._matchers:
+            self._matchers[length] = []
+        self._matchers[length].append(match_node)
 
     def match(self, parsed_piece):
         return [] if parsed_piece.piece_length not in self._matchers \
-- 
2.43.0


From 20975c70a5b0ebe9a330a26eaf9a78f5a9eb0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 09/15] fix: reject illegal chars in the query keys

They were turned into the rule [None]: URLs with different query keys got
the same structure and the same digest, and the generated pattern matched
neither of them as a regex.
---
 src/os_urlpattern/parse_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index ba79686..536d585 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -114,6 +114,8 @@ def normalize(raw_string, reserved_chars=None):
     frag = StringIO()
     last_c = None
     for c in raw_string:
+        if c not in CHAR_RULE_DICT:
+            raise InvalidCharException("Invalid char %r" % c)
         if c in ASCII_DIGIT_SET:
             if last_c and last_c not in ASCII_DIGIT_SET:
                 frag.seek(0)
-- 
2.43.0


From 17b6249b8e358f93ee14005904fef1e9e9732d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 10/15] fix: do not recurse once per path level

A URL with about a thousand path levels (or a piece with as many parts)
ended clustering, matching and ranking in RecursionError.
---
 src/os_urlpattern/pattern_cluster.py | 16 +++++++-----
 src/os_urlpattern/pattern_matcher.py | 38 ++++++++++++++--------------
 src/os_urlpattern/utils.py           | 23 ++++++++---------
 3 files changed, 38 insertions(+), 39 deletions(-)

diff --git a/src/os_urlpattern/pattern_cluster.py b/src/os_urlpattern/pattern_cluster.py
index 8732940..48e6e4c 100644
--- a/src/os_urlpattern/pattern_cluster.py
+++ b/src/os_urlpattern/pattern_cluster.py
@@ -623,14 +623,16 @@ class ClusterProcessor(object):
         return sum([c.pattern_num for c in itervalues(self._pattern_clusters)])
 
     def process(self):
-        self._process()
-        if self.is_last_level():
-            return
-
-        self._create_next_level_processors()
+        processors = [self]
+        while processors:
+            processor = processors.pop()
+            processor._process()
+            if processor.is_last_level():
+                continue
 
-        for processor in itervalues(self._next_level_processors):
-            processor.process()
+            processor._create_next_level_processors()
+            processors.extend(
+                reversed(list(processor.next_level_processors)))
 
     def _create_next_level_processors(self):
 
diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 9703dac..1c67e29 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -209,20 +209,19 @@ class PatternMatchNode(TreeNode):
             matched_nodes (list of PatternMatchNode): Filled with all of the
                 matched leaf nodes.
         """
-        parsed_piece = parsed_pieces[idx]
-        for matcher in self._view_matchers:
-            nodes = matcher.match(parsed_piece)
-            if not nodes:
-                continue
-            if nodes[0].leaf():
-                matched_nodes.extend(nodes)
-                continue
-            self._deep_match(nodes, parsed_pieces, idx + 1,
-                             matched_nodes)
-
-    def _deep_match(self, nodes, parsed_pieces, idx, matched_nodes):
-        for node in nodes:
-            node.match(parsed_pieces, idx, matched_nodes)
+        stack = [(self, idx)]
+        while stack:
+            node, idx = stack.pop()
+            next_nodes = []
+            for matcher in node._view_matchers:
+                nodes = matcher.match(parsed_pieces[idx])
+                if not nodes:
+                    continue
+                if nodes[0].leaf():
+                    matched_nodes.extend(nodes)
+                else:
+                    next_nodes.extend(nodes)
+            stack.extend([(n, idx + 1) for n in reversed(next_nodes)])
 
     def _get_matcher(self, view_cls):
         s = 0
@@ -256,11 +255,12 @@ class PatternMatchNode(TreeNode):
         return child, is_new
 
     def __lt__(self, other):
-        if id(self) == id(other) or self.parrent is None:
-            return False
-        if self.pattern == other.pattern:
-            return self.parrent < other.parrent
-        return self.pattern < other.pattern
+        node = self
+        while id(node) != id(other) and node.parrent is not None:
+            if node.pattern != other.pattern:
+                return node.pattern < other.pattern
+            node, other = node.parrent, other.parrent
+        return False
 
 
 class PatternMatcher(object):
diff --git a/src/os_urlpattern/utils.py b/src/os_urlpattern/utils.py
index 65c48d9..21af7c7 100644
--- a/src/os_urlpattern/utils.py
+++ b/src/os_urlpattern/utils.py
@@ -157,20 +157,17 @@ def dump_tree(root):
     Yields:
         list: List contains nodes from root to leaf as one path.
     """
-    olist = []
-
-    def _dump(node, _nodes):
-        _nodes.append(node)
+    nodes = []
+    stack = [(root, 0)]
+    while stack:
+        node, depth = stack.pop()
+        del nodes[depth:]
+        nodes.append(node)
         if node.leaf():
-            yield _nodes
-            return
-        for child in node.children:
-            for nodes in _dump(child, _nodes):
-                yield nodes
-            _nodes.pop(-1)
-
-    for nodes in _dump(root, olist):
-        yield nodes
+            yield nodes
+        else:
+            stack.extend(reversed([(child, depth + 1)
+                                   for child in node.children]))
 
 
 class LogSpeedAdapter(logging.LoggerAdapter):
-- 
2.43.0


From 16fa86ee4cf7b65c7e467c23e6df474b00e64401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:26 +0000
Subject: [PATCH 11/15] fix: out of memory while loading a URL or pattern no
 longer drops it silently

---
 src/os_urlpattern/cmdline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index 4c8e191..8d0caa7 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -135,6 +135,8 @@ class MakePatternCommand(Command):
                     self._logger.warn('%s, %r', str(e), line)
                     stats['INVALID'] += 1
                     continue
+                except MemoryError:
+                    raise
                 except Exception as e:
                     self._logger.error('%s, %r', str(e), line)
                     stats['INVALID'] += 1
@@ -198,6 +200,8 @@ class MatchPatternCommand(Command):
                     pattern = line.decode(DEFAULT_ENCODING)
                     load(pattern, meta=pattern)
                     stats['VALID'] += 1
+                except MemoryError:
+                    raise
                 except Exception as e:
                     self._logger.warn("%s, %r", str(e), line)
                     stats['INVALID'] += 1
-- 
2.43.0


From 0a9f1c3261de946197bc55f7b522a018daa7a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:26 +0000
Subject: [PATCH 12/15] fix: an interrupt while probing the memory usage is not
 swallowed

---
 src/os_urlpattern/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/utils.py b/src/os_urlpattern/utils.py
index 21af7c7..c9b73ac 100644
--- a/src/os_urlpattern/utils.py
+++ b/src/os_urlpattern/utils.py
@@ -225,7 +225,7 @@ def used_memory():
 
     try:
         import psutil
-    except:
+    except Exception:
         return '-'
     p = psutil.Process(os.getpid())
     memory = p.memory_info().rss
-- 
2.43.0


From 35f05fe532cc96c6dd377398b75caed95d5ddf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 13/15] fix: only ASCII digits count as a number in a URL
 pattern

str.isdigit() also accepts other decimal digits, and int() converts them,
so /[0-9]{<ARABIC-INDIC DIGIT THREE>} was loaded and reported for /123,
which it does not match as a regular expression.
---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 536d585..a2290d6 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -9,7 +9,7 @@ from collections import namedtuple
 from .compat import ParseResult, StringIO, urlparse
 from .definition import (ASCII_DIGIT_SET, BLANK_TUPLE, CHAR_RULE_DICT,
                          DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET,
-                         EMPTY_TUPLE, MIXED_RULE_SET,
+                         DIGIT_SET, EMPTY_TUPLE, MIXED_RULE_SET,
                          QUERY_PART_RESERVED_CHARS, RULE_SET, SIGN_RULE_SET,
                          BasePatternRule, Symbols)
 from .exceptions import (InvalidCharException, InvalidPatternException,
@@ -666,7 +666,7 @@ def parse_pattern_string(pattern_string):
                         raise InvalidPatternException(
                             "Missing '%s'" % Symbols.BRACES_R)
                     num_str = pattern_string[old_idx:idx]
-                    if not num_str.isdigit():
+                    if not num_str or not DIGIT_SET.issuperset(num_str):
                         raise InvalidPatternException(
                             "Invalid num %r" % num_str)
 
@@ -722,7 +722,7 @@ def parse_pattern_unit_string(pattern_unit_string):
         elif pattern_unit_string[-1] == Symbols.BRACES_R:
             t = pattern_unit_string.rfind(Symbols.BRACES_L)
             num_str = pattern_unit_string[t + 1:-1]
-            if not num_str.isdigit():
+            if not num_str or not DIGIT_SET.issuperset(num_str):
                 raise InvalidPatternException("Invalid num %r" % num_str)
             num = int(num_str)
         elif pattern_unit_string[-1] == Symbols.PLUS:
-- 
2.43.0


From f9a933eaaf050989efa94ca661a596a4c5b3af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:31 +0000
Subject: [PATCH 14/15] fix: a URL offered with unhashable metadata leaves no
 trace

load() raised TypeError from add_meta() after the URL had been counted (and its
sub maker created), so that the rejected URL was clustered.
---
 src/os_urlpattern/pattern_maker.py      | 1 +
 src/os_urlpattern/piece_pattern_node.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/os_urlpattern/pattern_maker.py b/src/os_urlpattern/pattern_maker.py
index 55b771f..edf99bd 100644
--- a/src/os_urlpattern/pattern_maker.py
+++ b/src/os_urlpattern/pattern_maker.py
@@ -38,6 +38,7 @@ class PatternMaker(object):
         Returns:
             tuple: 2-tules, (node, is_new).
         """
+        hash(meta)  # unhashable meta can not be kept, reject it first
         url_meta, parsed_pieces = parse(url)
         if not isinstance(parsed_pieces[0], ParsedPiece):
             raise ValueError('Invalid URL')
diff --git a/src/os_urlpattern/piece_pattern_node.py b/src/os_urlpattern/piece_pattern_node.py
index 305c347..464d1a0 100644
--- a/src/os_urlpattern/piece_pattern_node.py
+++ b/src/os_urlpattern/piece_pattern_node.py
@@ -78,6 +78,7 @@ def build_from_parsed_pieces(root, parsed_pieces, count=1, meta=None, uniq=True)
     Returns:
         tuple: 2-tuple, (leaf_node, is_new)
     """
+    hash(meta)  # reject unhashable meta before touching the tree
     node, is_new = build_tree(root, [(parsed_piece.piece, (parsed_piece, None))
                                      for parsed_piece in parsed_pieces], count)
     if uniq and not is_new:
-- 
2.43.0


From 86426318c79c3742845f2eff70664ca0ede056dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:02 +0000
Subject: [PATCH 15/15] fix: an interrupt while a formatter is set up is not
 swallowed

A bare except around the import of the optional ete3 package, which takes a
while, ate KeyboardInterrupt and SystemExit.
---
 src/os_urlpattern/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/formatter.py b/src/os_urlpattern/formatter.py
index 54b58a1..3895cac 100644
--- a/src/os_urlpattern/formatter.py
+++ b/src/os_urlpattern/formatter.py
@@ -229,5 +229,5 @@ for c_cls in get_classes(sys.modules[__name__], Formatter):
     name = c_name[0:t].upper() if c_name[0:t] else 'NULL'
     try:
         FORMATTERS[name] = c_cls()
-    except:
+    except Exception:
         pass
-- 
2.43.0

