From 075fd12e63212e445cad3de4d40e83b2a35970a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:22 +0000
Subject: [PATCH 01/21] fix: line ending after an empty text node

A character reference such as &#1; decodes to the empty string, so the
text node in front of a line ending can be empty and literal[-1] raised
IndexError.
---
 commonmark/inlines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0aa50d3..925451a 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -738,8 +738,8 @@ class InlineParser(object):
         # assume we're at a \n
         self.pos += 1
         lastc = block.last_child
-        if lastc and lastc.t == 'text' and lastc.literal[-1] == ' ':
-            linebreak = len(lastc.literal) >= 2 and lastc.literal[-2] == ' '
+        if lastc and lastc.t == 'text' and lastc.literal.endswith(' '):
+            linebreak = lastc.literal.endswith('  ')
             lastc.literal = re.sub(reFinalSpace, '', lastc.literal)
             if linebreak:
                 node = Node('linebreak', None)
-- 
2.43.0


From 70f7436e0707a284f845487ad6040ff8e9fffbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:22 +0000
Subject: [PATCH 02/21] fix: a final carriage return adds no line

Lines end at LF, CR LF or CR, but only a final LF was recognized as
ending the last line, so a document ending in CR got an extra blank
line (visible in code blocks and source positions).
---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index aeec21d..5f8f9d8 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -891,7 +891,7 @@ class Parser(object):
         self.current_line = ''
         lines = re.split(reLineEnding, my_input)
         length = len(lines)
-        if len(my_input) > 0 and my_input[-1] == '\n':
+        if len(my_input) > 0 and my_input[-1] in '\r\n':
             # ignore last blank line created by final newline
             length -= 1
         for i in range(length):
-- 
2.43.0


From 8b3dd5ce850da3eedca3deace49e2a41b2ee3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:22 +0000
Subject: [PATCH 03/21] fix: discard a title that does not end its line

parseReference compared instead of assigning, so a link reference
definition kept a title that the spec says is not part of it.
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 925451a..9bbb253 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -800,7 +800,7 @@ class InlineParser(object):
                 # the potential title we found is not at the line end,
                 # but it could still be a legal link reference if we
                 # discard the title
-                title == ''
+                title = ''
                 # rewind before spaces
                 self.pos = beforetitle
                 # and instead check if the link URL is at the line end
-- 
2.43.0


From d28a45cae46d1db0ad2f77f40bef3d6205ddb662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:22 +0000
Subject: [PATCH 04/21] fix: HtmlRenderer must not modify the options it is
 given

The default value of the options parameter is shared by all renderers
created without options, and a caller's dict was written to.
---
 commonmark/render/html.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index b4ea345..42ee631 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -21,6 +21,7 @@ def potentially_unsafe(url):
 class HtmlRenderer(Renderer):
     def __init__(self, options={}):
         #  by default, soft breaks are rendered as newlines in HTML
+        options = dict(options)
         options['softbreak'] = options.get('softbreak') or '\n'
         # set to "<br />" to make them hard breaks
         # set to " " if you want to ignore line wrapping in source
-- 
2.43.0


From 2c9a770b3c159cfac22e0a5a73689ce4cc3559c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:22 +0000
Subject: [PATCH 05/21] fix: escape raw inline HTML in the alternative text of
 an image

It was written unchanged into the alt attribute, so that a quote in it
ended the attribute and the rest became markup.
---
 commonmark/render/html.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 42ee631..7fab00d 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -186,9 +186,14 @@ class HtmlRenderer(Renderer):
 
     def html_inline(self, node, entering):
         if self.options.get('safe'):
-            self.lit('<!-- raw HTML omitted -->')
+            html = '<!-- raw HTML omitted -->'
         else:
-            self.lit(node.literal)
+            html = node.literal
+        if self.disable_tags > 0:
+            # part of the alternative text of an image
+            self.out(html)
+        else:
+            self.lit(html)
 
     def html_block(self, node, entering):
         self.cr()
-- 
2.43.0


From d736450f0cdd5efa06f34e57e24641cd73ed7719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:47 +0000
Subject: [PATCH 06/21] fix: go back after an unfinished inline link

When the destination parsed but no closing parenthesis followed, the
position stayed behind the destination, and a reference label there was
taken for that of the link, losing the text in between.
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 9bbb253..ad1a7af 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -624,7 +624,7 @@ class InlineParser(object):
                 if self.spnl() and self.peek() == ')':
                     self.pos += 1
                     matched = True
-            else:
+            if not matched:
                 self.pos = savepos
 
         if not matched:
-- 
2.43.0


From ca83d76eb43093411321dd551b0b4868ca32ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:47 +0000
Subject: [PATCH 07/21] fix: an empty title that does not end its line

It was treated like a missing title, so the whole definition was
rejected although it is valid without the title.
---
 commonmark/inlines.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index ad1a7af..92366bb 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -787,20 +787,19 @@ class InlineParser(object):
         if self.pos != beforetitle:
             title = self.parseLinkTitle()
         if title is None:
-            title = ''
             # rewind before spaces
             self.pos = beforetitle
 
         # make sure we're at line end:
         at_line_end = True
         if self.match(reSpaceAtEndOfLine) is None:
-            if title == '':
+            if title is None:
                 at_line_end = False
             else:
                 # the potential title we found is not at the line end,
                 # but it could still be a legal link reference if we
                 # discard the title
-                title = ''
+                title = None
                 # rewind before spaces
                 self.pos = beforetitle
                 # and instead check if the link URL is at the line end
@@ -819,7 +818,7 @@ class InlineParser(object):
         if not refmap.get(normlabel):
             refmap[normlabel] = {
                 'destination': dest,
-                'title': title
+                'title': title or ''
             }
         return (self.pos - startpos)
 
-- 
2.43.0


From 051089af1f63461e7d4be2922e97bcb023f7535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:47 +0000
Subject: [PATCH 08/21] fix: no softbreak markup in the alternative text of an
 image

With the softbreak option set to "<br />" the tag was written into the
alt attribute.
---
 commonmark/render/html.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 7fab00d..7b1aa55 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -55,7 +55,11 @@ class HtmlRenderer(Renderer):
         self.out(node.literal)
 
     def softbreak(self, node=None, entering=None):
-        self.lit(self.options['softbreak'])
+        if self.disable_tags > 0:
+            # in the alternative text of an image, never a tag
+            self.lit('\n')
+        else:
+            self.lit(self.options['softbreak'])
 
     def linebreak(self, node=None, entering=None):
         self.tag('br', [], True)
-- 
2.43.0


From adf4304e17a31077e50ddc8f50f7ff3aabb653ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:47 +0000
Subject: [PATCH 09/21] fix: rst headings that are empty or do not begin with
 text

The length of the underline was that of the first child's literal, which
raised AttributeError for an empty heading and TypeError for one that
begins with emphasis, a link or an image.
---
 commonmark/render/rst.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 45adca3..af2d4d5 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -150,12 +150,12 @@ class ReStructuredTextRenderer(Renderer):
             # Default to the last level if we're in too deep
             heading_char = heading_chars[-1]
 
-        heading_length = len(node.first_child.literal)
-        banner = heading_char * heading_length
-
         if entering:
             self.cr()
         else:
+            # as long as the line it underlines
+            heading_length = len(self.buf) - (self.buf.rfind('\n') + 1)
+            banner = heading_char * heading_length
             self.cr()
             self.out(banner)
             self.cr()
-- 
2.43.0


From d0bad4e79df56c3a63afdf1f5855d09674e9dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:47 +0000
Subject: [PATCH 10/21] fix: rst code blocks keep their characters and
 indentation

splitlines() also splits at form feeds and other characters, which were
lost, and in list items and block quotes only the first line of a code
block was indented like its surroundings.
---
 commonmark/render/rst.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index af2d4d5..acf529c 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -40,12 +40,12 @@ class ReStructuredTextRenderer(Renderer):
 
     def indent_lines(self, literal, indent_length=4):
         indent = self.indent_char * indent_length
-        new_lines = []
+        newline = '\n' + self.indent_char * self.indent_length + indent
 
-        for line in literal.splitlines():
-            new_lines.append(indent + line)
+        if literal.endswith('\n'):
+            literal = literal[:-1]
 
-        return '\n'.join(new_lines)
+        return indent + literal.replace('\n', newline)
 
     # Nodes
 
-- 
2.43.0


From 12aa788d01414b939169c68614a7fab77ba31d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:48 +0000
Subject: [PATCH 11/21] fix: recognise punctuation outside the Basic
 Multilingual Plane

The characters were listed as surrogate pairs, which never match in
Python 3 and wide builds of Python 2, so emphasis next to them was not
resolved by the rules of the specification.
---
 commonmark/inlines.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 92366bb..4ad1fa5 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -22,7 +22,7 @@ else:
 
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
 
-rePunctuation = re.compile(
+PUNCTUATION = (
     r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
     r'\xBF\u037E\u0387\u055A-\u055F\u0589\u058A\u05BE\u05C0\u05C3'
     r'\u05C6\u05F3\u05F4\u0609\u060A\u060C\u060D\u061B\u061E\u061F'
@@ -41,14 +41,34 @@ rePunctuation = re.compile(
     r'\uA92F\uA95F\uA9C1-\uA9CD\uA9DE\uA9DF\uAA5C-\uAA5F\uAADE\uAADF\uAAF0'
     r'\uAAF1\uABEB\uFD3E\uFD3F\uFE10-\uFE19\uFE30-\uFE52\uFE54-\uFE61\uFE63'
     r'\uFE68\uFE6A\uFE6B\uFF01-\uFF03\uFF05-\uFF0A\uFF0C-\uFF0F\uFF1A\uFF1B'
-    r'\uFF1F\uFF20\uFF3B-\uFF3D\uFF3F\uFF5B\uFF5D\uFF5F-\uFF65]|\uD800[\uDD00-'
-    r'\uDD02\uDF9F\uDFD0]|\uD801\uDD6F|\uD802[\uDC57\uDD1F\uDD3F\uDE50-\uDE58'
-    r'\uDE7F\uDEF0-\uDEF6\uDF39-\uDF3F\uDF99-\uDF9C]|\uD804[\uDC47-\uDC4D'
-    r'\uDCBB\uDCBC\uDCBE-\uDCC1\uDD40-\uDD43\uDD74\uDD75\uDDC5-\uDDC9\uDDCD'
-    r'\uDDDB\uDDDD-\uDDDF\uDE38-\uDE3D\uDEA9]|\uD805[\uDCC6\uDDC1-\uDDD7'
-    r'\uDE41-\uDE43\uDF3C-\uDF3E]|\uD809[\uDC70-\uDC74]|\uD81A[\uDE6E\uDE6F'
-    r'\uDEF5\uDF37-\uDF3B\uDF44]|\uD82F\uDC9F|\uD836[\uDE87-\uDE8B]'
+    r'\uFF1F\uFF20\uFF3B-\uFF3D\uFF3F\uFF5B\uFF5D\uFF5F-\uFF65'
 )
+if sys.maxunicode > 0xFFFF:
+    PUNCTUATION += (
+        r'\U00010100-\U00010102\U0001039F\U000103D0\U0001056F\U00010857'
+        r'\U0001091F\U0001093F\U00010A50-\U00010A58\U00010A7F'
+        r'\U00010AF0-\U00010AF6\U00010B39-\U00010B3F\U00010B99-\U00010B9C'
+        r'\U00011047-\U0001104D\U000110BB\U000110BC\U000110BE-\U000110C1'
+        r'\U00011140-\U00011143\U00011174\U00011175\U000111C5-\U000111C9'
+        r'\U000111CD\U000111DB\U000111DD-\U000111DF\U00011238-\U0001123D'
+        r'\U000112A9\U000114C6\U000115C1-\U000115D7\U00011641-\U00011643'
+        r'\U0001173C-\U0001173E\U00012470-\U00012474\U00016A6E\U00016A6F'
+        r'\U00016AF5\U00016B37-\U00016B3B\U00016B44\U0001BC9F'
+        r'\U0001DA87-\U0001DA8B]'
+    )
+else:
+    # narrow build of Python 2
+    PUNCTUATION += (
+        r']|\uD800[\uDD00-'
+        r'\uDD02\uDF9F\uDFD0]|\uD801\uDD6F|\uD802[\uDC57\uDD1F\uDD3F\uDE50-\uDE58'
+        r'\uDE7F\uDEF0-\uDEF6\uDF39-\uDF3F\uDF99-\uDF9C]|\uD804[\uDC47-\uDC4D'
+        r'\uDCBB\uDCBC\uDCBE-\uDCC1\uDD40-\uDD43\uDD74\uDD75\uDDC5-\uDDC9\uDDCD'
+        r'\uDDDB\uDDDD-\uDDDF\uDE38-\uDE3D\uDEA9]|\uD805[\uDCC6\uDDC1-\uDDD7'
+        r'\uDE41-\uDE43\uDF3C-\uDF3E]|\uD809[\uDC70-\uDC74]|\uD81A[\uDE6E\uDE6F'
+        r'\uDEF5\uDF37-\uDF3B\uDF44]|\uD82F\uDC9F|\uD836[\uDE87-\uDE8B]'
+    )
+
+rePunctuation = re.compile(PUNCTUATION)
 
 reLinkTitle = re.compile(
     '^(?:"(' + ESCAPED_CHAR + '|[^"\\x00])*"' +
-- 
2.43.0


From 9c31f119c808d55aa5b9ed2be760a8f9571843cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:21 +0000
Subject: [PATCH 12/21] fix: use the specification's Unicode whitespace for
 flanking

\s also matches control characters such as U+000B, U+001C and U+0085 and
the separators U+2028 and U+2029, which are not Unicode whitespace
characters as defined by CommonMark 0.29.
---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 4ad1fa5..85b8f5f 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -94,7 +94,8 @@ reAutolink = re.compile(
 reSpnl = re.compile(r'^ *(?:\n *)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
-reUnicodeWhitespaceChar = re.compile(r'^\s')
+reUnicodeWhitespaceChar = re.compile(
+    r'^[ \t\n\f\r\xA0\u1680\u2000-\u200A\u202F\u205F\u3000]')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^ *(?:\n|$)')
-- 
2.43.0


From e90cc9f43e3a96df54b20911be8f7795e85d930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:21 +0000
Subject: [PATCH 13/21] fix: keep no-break spaces at the ends of a paragraph

Only white space as defined by the specification is removed from the
ends of the text of a paragraph or heading; strip() without arguments
lost no-break spaces and other Unicode characters of the document.
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 85b8f5f..b9eaf8a 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -889,7 +889,7 @@ class InlineParser(object):
         Parse string content in block into inline children,
         using refmap to resolve references.
         """
-        self.subject = block.string_content.strip()
+        self.subject = block.string_content.strip(' \t\n\x0b\x0c\r')
         self.pos = 0
         self.delimiters = None
         self.brackets = None
-- 
2.43.0


From 11c306c2bdc97c212961b5eb416c617f45e8f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:21 +0000
Subject: [PATCH 14/21] fix: ordered list markers consist of ASCII digits

\d matches every Unicode decimal digit.
---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 5f8f9d8..f27d740 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -41,7 +41,7 @@ reThematicBreak = re.compile(
 reMaybeSpecial = re.compile(r'^[#`~*+_=<>0-9-]')
 reNonSpace = re.compile(r'[^ \t\f\v\r\n]')
 reBulletListMarker = re.compile(r'^[*+-]')
-reOrderedListMarker = re.compile(r'^(\d{1,9})([.)])')
+reOrderedListMarker = re.compile(r'^([0-9]{1,9})([.)])')
 reATXHeadingMarker = re.compile(r'^#{1,6}(?:[ \t]+|$)')
 reCodeFence = re.compile(r'^`{3,}(?!.*`)|^~{3,}')
 reClosingCodeFence = re.compile(r'^(?:`{3,}|~{3,})(?= *$)')
-- 
2.43.0


From 372fc23d3fcd0449d17a1a880359655c556526b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:21 +0000
Subject: [PATCH 15/21] fix: unknown entity names are literal text

html.unescape decodes the longest known name at the beginning of an
unknown one, so that &notit; became the sign for not followed by "it;".
---
 commonmark/common.py  | 14 ++++++++++++--
 commonmark/inlines.py | 15 ++-------------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 05b52a1..2b9c968 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -11,12 +11,14 @@ except ImportError:
 if sys.version_info >= (3, 0):
     if sys.version_info >= (3, 4):
         import html
+        from html.entities import html5
         HTMLunescape = html.unescape
     else:
-        from .entitytrans import _unescape
+        from .entitytrans import _unescape, _html5 as html5
         HTMLunescape = _unescape
 else:
     from commonmark import entitytrans
+    html5 = entitytrans._html5
     HTMLunescape = entitytrans._unescape
 
 ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
@@ -47,11 +49,19 @@ XMLSPECIAL = '[&<>"]'
 reXmlSpecial = re.compile(XMLSPECIAL)
 
 
+def unescape_entity(s):
+    """Decode a character reference, unless HTML5 does not know its name."""
+    if s[1] != '#' and s[1:] not in html5:
+        # HTMLunescape would decode a known name at its beginning
+        return s
+    return HTMLunescape(s)
+
+
 def unescape_char(s):
     if s[0] == '\\':
         return s[1]
     else:
-        return HTMLunescape(s)
+        return unescape_entity(s)
 
 
 def unescape_string(s):
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index b9eaf8a..8c2a228 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -3,21 +3,10 @@ from __future__ import absolute_import, unicode_literals, division
 import re
 import sys
 from commonmark import common
-from commonmark.common import normalize_uri, unescape_string
+from commonmark.common import normalize_uri, unescape_entity, unescape_string
 from commonmark.node import Node
 from commonmark.normalize_reference import normalize_reference
 
-if sys.version_info >= (3, 0):
-    if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
-    else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
-else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
-
 # Some regexps used in inline parser:
 
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
@@ -729,7 +718,7 @@ class InlineParser(object):
         """Attempt to parse an entity."""
         m = self.match(reEntityHere)
         if m:
-            block.append_child(text(HTMLunescape(m)))
+            block.append_child(text(unescape_entity(m)))
             return True
         else:
             return False
-- 
2.43.0


From 2e18d984e789f2146aaa0573cecd65ab622df228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:26 +0000
Subject: [PATCH 16/21] fix: no empty paragraph where only definitions precede
 a thematic break

---
 commonmark/blocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index f27d740..bcc2125 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -406,7 +406,9 @@ class Paragraph(Block):
                 break
             block.string_content = block.string_content[pos:]
             has_reference_defs = True
-        if has_reference_defs and is_blank(block.string_content):
+        if not block.string_content or \
+           (has_reference_defs and is_blank(block.string_content)):
+            # (setext_heading may already have taken the definitions out)
             block.unlink()
 
     @staticmethod
-- 
2.43.0


From fdee4b4cace378ca0a85e8fc93d164a3f8d8e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:37 +0000
Subject: [PATCH 17/21] fix: an opener refused by the multiple-of-three rule
 stays available

---
 commonmark/inlines.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 8c2a228..5db2a1e 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -373,7 +373,6 @@ class InlineParser(object):
             "'": stack_bottom,
             '"': stack_bottom,
         }
-        odd_match = False
         use_delims = 0
 
         # Find first closer above stack_bottom
@@ -390,19 +389,22 @@ class InlineParser(object):
                 # matching opener:
                 opener = closer.get('previous')
                 opener_found = False
+                odd_match = False
                 closercc = closer.get('cc')
                 while (opener is not None and opener != stack_bottom and
                        opener != openers_bottom[closercc]):
-                    odd_match = (closer.get('can_open') or
-                                 opener.get('can_close')) and \
-                                 closer['origdelims'] % 3 != 0 and \
-                                 (opener['origdelims'] +
-                                  closer['origdelims']) % 3 == 0
                     if opener.get('cc') == closercc and \
-                       opener.get('can_open') and \
-                       not odd_match:
-                        opener_found = True
-                        break
+                       opener.get('can_open'):
+                        if (closer.get('can_open') or
+                                opener.get('can_close')) and \
+                                closer['origdelims'] % 3 != 0 and \
+                                (opener['origdelims'] +
+                                 closer['origdelims']) % 3 == 0:
+                            # another closer may still match this one
+                            odd_match = True
+                        else:
+                            opener_found = True
+                            break
                     opener = opener.get('previous')
                 old_closer = closer
 
-- 
2.43.0


From 9f95d7c727016ec960243f3cc887b31c5c56a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:37 +0000
Subject: [PATCH 18/21] fix: an item numbered 01 can interrupt a paragraph

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index bcc2125..6be6af6 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -102,7 +102,7 @@ def parse_list_marker(parser, container):
     if m:
         data['type'] = 'bullet'
         data['bullet_char'] = m.group()[0]
-    elif m2 and (container.t != 'paragraph' or m2.group(1) == '1'):
+    elif m2 and (container.t != 'paragraph' or int(m2.group(1)) == 1):
         m = m2
         data['type'] = 'ordered'
         data['start'] = int(m.group(1))
-- 
2.43.0


From a83b5978b1d0a2172ef98425f87238617015a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:54 +0000
Subject: [PATCH 19/21] fix: all white space of a link label collapses

---
 commonmark/normalize_reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonmark/normalize_reference.py b/commonmark/normalize_reference.py
index d68a3b1..88de593 100644
--- a/commonmark/normalize_reference.py
+++ b/commonmark/normalize_reference.py
@@ -107,7 +107,7 @@ def _check_native(tbl):
 
 
 # Hoist version check out of function for performance
-SPACE_RE = re.compile(r'[ \t\r\n]+')
+SPACE_RE = re.compile(r'[ \t\n\x0b\x0c\r]+')
 if _check_native(XLAT):
     def normalize_reference(string):
         """
@@ -127,7 +127,7 @@ else:
         xls = sorted(x - 0x10000 for x in XLAT if x >= 0x10000)
         xls.append(-1)
         fmt, (dsh, opn, pip, cse) = str('\\u%04x'), str('-[|]')
-        rga, srk, erk = [str(r'[ \t\r\n]+')], 0, -2
+        rga, srk, erk = [str(r'[ \t\n\x0b\x0c\r]+')], 0, -2
         for k in xls:
             new_hir = (erk ^ k) >> 10 != 0
             if new_hir or erk + 1 != k:
-- 
2.43.0


From a19fa5803fd3415e6612f7775b3bcfa276aabd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:06 +0000
Subject: [PATCH 20/21] fix: only spaces and tabs make a line blank after a
 list marker

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 6be6af6..35ef75f 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -118,7 +118,7 @@ def parse_list_marker(parser, container):
     # if it interrupts paragraph, make sure first line isn't blank
     if container.t == 'paragraph' and \
        not re.search(
-           reNonSpace,
+           r'[^ \t]',
            parser.current_line[parser.next_nonspace + len(m.group()):]):
         return None
 
-- 
2.43.0


From 621645fe69216703193e098dabdd00da7c9834d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:53:41 +0000
Subject: [PATCH 21/21] fix: h2 to h6 begin an HTML block like h1

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 35ef75f..ad5249c 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -18,7 +18,7 @@ reHtmlBlockOpen = [
     re.compile(
         r'^<[/]?(?:address|article|aside|base|basefont|blockquote|body|'
         r'caption|center|col|colgroup|dd|details|dialog|dir|div|dl|dt|'
-        r'fieldset|figcaption|figure|footer|form|frame|frameset|h1|head|'
+        r'fieldset|figcaption|figure|footer|form|frame|frameset|h[1-6]|head|'
         r'header|hr|html|iframe|legend|li|link|main|menu|menuitem|'
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
-- 
2.43.0

