From fe1e7caf0004d79507544a2d347540dcccdb2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 01/27] fix: reset() must leave preformatted mode

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 66a705d..c8ac01f 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -632,3 +632,4 @@ class GopherHTMLParser(HTMLParser):
         self.tree = DocumentParser()
         self._next_link_number = 1
         self._footer_pending_links = []
+        self._in_pre = False
-- 
2.43.0


From bef700f9db51f3f56ab35b524a10898e08d35109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 02/27] fix: closing again after a failed close must not repeat
 text

---
 gopher_render/_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index c8ac01f..d7fc56d 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -600,6 +600,9 @@ class GopherHTMLParser(HTMLParser):
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
 
+        # Start from nothing: an earlier close may have failed half way, or
+        # even have succeeded.
+        self._parsed = []
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
-- 
2.43.0


From f8fe6c353dc6debb0613bfee87409ff81ec503df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 03/27] fix: text received in several pieces must render as if
 received at once

---
 gopher_render/_parser.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index d7fc56d..7347398 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -251,7 +251,27 @@ class LinkParser(TagParser):
 class DataParser(TagParser):
     def __init__(self, parent, data, **context):
         super().__init__(None, parent, None, **context)
-        if not context['in_pre']:
+        self.in_pre = context['in_pre']
+        self.closed = True
+        self._received = [data]
+        self._data = None
+
+    def append(self, data):
+        """
+        Add more text. The text between two tags may arrive in several pieces,
+        but its whitespace has to be treated as a whole.
+        """
+        self._received.append(data)
+        self._data = None
+
+    @property
+    def data(self):
+        if self._data is None:
+            self._data = self._clean("".join(self._received))
+        return self._data
+
+    def _clean(self, data):
+        if not self.in_pre:
             # This attempts to remove extraneous formatting internal to the data
             # but does not remove whitespace from the start or end of the data
             # because it may be followed or preceeded by a tag that depends on
@@ -269,8 +289,7 @@ class DataParser(TagParser):
                 data_split = data_stripped
             data = ' '.join(data_split)
             data = re.sub('[ \t]+', ' ', data)
-        self.data = data
-        self.closed = True
+        return data
 
     def render(self, box):
         return self.data
@@ -547,6 +566,12 @@ class GopherHTMLParser(HTMLParser):
         #     if len(data) == 0 or data.isspace():
         #         return
         parent = self._get_top()
+        siblings = (parent or self.tree).children
+        if siblings:
+            last = siblings[-1]
+            if isinstance(last, DataParser) and last.in_pre == self._in_pre:
+                last.append(data)
+                return
         d = DataParser(parent, data, in_pre=self._in_pre)
         if parent:
             parent.children.append(d)
-- 
2.43.0


From 215c41ad3f2810072b2baf3d6f903e2eed27f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 04/27] fix: text between ordered list items must not affect
 their numbers

---
 gopher_render/rendering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ea2f0a..56a8365 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1092,7 +1092,9 @@ class OrderedListItemRenderer(ListItemRenderer):
         super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.children.index(tag) * step) + start_index
+        # Only other items count, not any text between them.
+        items = [c for c in tag.parent.children if c.tag == tag.tag]
+        return (items.index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0


From 39d181ed81432af1819c92800e573229e20f4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 05/27] fix: ordered list items must honour settings from the
 renderer map

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 56a8365..8e0c5ef 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1077,11 +1077,12 @@ class OrderedListItemRenderer(ListItemRenderer):
         step=1,
     )
 
-    def __init__(self, tag, **kwargs):
+    def _adjust_settings(self):
         # Determine the ordinal and prepare a template based on it before the
         # box gets generated, otherwise the width will be incorrect.
+        super()._adjust_settings()
         self.order = self._get_ordinal(
-            tag,
+            self.tag,
             self.settings.start_index,
             self.settings.step,
         )
@@ -1089,7 +1090,6 @@ class OrderedListItemRenderer(ListItemRenderer):
             self.order,
             '{}'
         )
-        super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
         # Only other items count, not any text between them.
-- 
2.43.0


From 402d7863ffd3118219bcd37da6e867cd6987ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 06/27] fix: attributes without a value must not break parsing
 or matching

---
 gopher_render/_parser.py    | 3 ++-
 gopher_render/_selectors.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7347398..a411518 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -51,7 +51,8 @@ class TagParser(object):
 
     def __extract_classes(self):
         if 'class' in self.attrs:
-            self.attrs['class'] = self.attrs['class'].split()
+            # The value is None if there is no "=" after the name
+            self.attrs['class'] = (self.attrs['class'] or '').split()
             return self.attrs['class']
         return []
 
diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index de6e5fa..32a6cb5 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -139,6 +139,9 @@ def _attribute_matches(tag, selector):
         if selector.operator == 'exists':
             return True
         attr_val = tag.attrs[selector.attrib]
+        if attr_val is None:
+            # No "=" after the name
+            attr_val = ""
         if selector.attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
-- 
2.43.0


From c4c32417a114c11882d8ad1286b680947855b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 07/27] fix: malformed link targets must not break parsing,
 gopher URLs default to port 70

---
 gopher_render/_parser.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index a411518..62ab8e7 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -152,7 +152,18 @@ class LinkParser(TagParser):
         Parse the href of the link and return a dictionary containing the
         elements of a gophermap link
         """
-        parsed = urlparse(self.href)
+        try:
+            parsed = urlparse(self.href)
+            port = parsed.port
+        except ValueError:
+            # Malformed: there is no telling what it is, so try it as a web
+            # link
+            return dict(
+                type='h',
+                selector="URL:{}".format(self.href),
+                host=self._context['gopher_host'],
+                port=self._context['gopher_port'],
+            )
         if parsed.scheme in ("http", "https"):
             return dict(
                 type='h',
@@ -165,8 +176,8 @@ class LinkParser(TagParser):
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
-                host=parsed.hostname,
-                port=parsed.port,
+                host=parsed.hostname or self._context['gopher_host'],
+                port=port or 70,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 69cf364a6a4c1c159b743e95bf4fc90d486f3932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 08/27] fix: links outside any element must work with
 after_block placement

---
 gopher_render/_parser.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 62ab8e7..9fc189c 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -317,6 +317,7 @@ class DocumentParser(object):
     """
     def __init__(self):
         self.children = []
+        self._pending_links = []
 
     def tag_children(self):
         """
@@ -327,8 +328,22 @@ class DocumentParser(object):
     def append(self, tag):
         self.children.append(tag)
 
+    def add_pending_link(self, link):
+        self._pending_links.append(link)
+
+    def render_pending_links(self, box):
+        rendered = []
+        if len(self._pending_links):
+            rendered.append('\n')
+        for l in self._pending_links:
+            rendered.append(
+                l.link_render(box)
+            )
+        return rendered
+
     def reset(self):
         self.children = []
+        self._pending_links = []
 
 
 RendererMapping = namedtuple('RendererMapping', 'selector, renderer')
@@ -642,6 +657,7 @@ class GopherHTMLParser(HTMLParser):
         self._parsed = []
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
+        self._parsed.extend(self.tree.render_pending_links(self._box))
 
         if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
-- 
2.43.0


From 6dbd874b0afbb4fcf20b576e5dd5b37c893e62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 09/27] fix: images placed in the footer must be listed
 wherever links are placed

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 9fc189c..050629e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -659,7 +659,7 @@ class GopherHTMLParser(HTMLParser):
             self._parsed.append(t.render(self._box))
         self._parsed.extend(self.tree.render_pending_links(self._box))
 
-        if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
+        if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
                 self._parsed.append(l.link_render(self._box))
-- 
2.43.0


From 86690f86a0317f4df512dda6018b622f281a9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 10/27] fix: nesting deeper than the width must not break
 wrapping

---
 gopher_render/rendering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 8e0c5ef..f46d291 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -157,12 +157,14 @@ class Box(object):
         Block content should be wrapped to this width.
         """
         def fget(self):
-            return self.width - (
+            # Deeply nested elements can use up all of the width, but text
+            # cannot be wrapped to nothing.
+            return max(1, self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
                 self.total_padding[BoxSide.LEFT] + self.total_padding[BoxSide.RIGHT] +
                 self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
                 self.total_line_template_padding
-            )
+            ))
         return locals()
     inner_width_excluding_line_template = property(**inner_width_excluding_line_template())
 
-- 
2.43.0


From a7583793c7d7ebc0642199bd7e022c6a9c822e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 11/27] fix: do not mix diagnostics into standard output

---
 gopher_render/_parser.py | 8 ++++++--
 gopher_render/cli.py     | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 050629e..d891f6f 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,3 +1,4 @@
+import logging
 import re
 from html.parser import HTMLParser
 from urllib.parse import urlparse
@@ -22,6 +23,9 @@ from .rendering import ListRenderer, ListItemRenderer, OrderedListItemRenderer
 from .rendering import DefinitionListRenderer, DefinitionListTermHeaderRenderer, DefinitionListItemRenderer
 from .rendering import AnsiEscapeCodeRenderer
 
+_logger = logging.getLogger(__name__)
+_logger.addHandler(logging.NullHandler())
+
 
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
@@ -571,13 +575,13 @@ class GopherHTMLParser(HTMLParser):
         if tag == 'pre':
             self._in_pre = False
         if not top:
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            _logger.warning("Unsupported or mismatched end tag, ignoring: %s", tag)
             return
         if top.tag == tag:
             top.closed = True
         else:
             # TODO: Consider instead just accepting mismatched tags and closing the top tag?
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            _logger.warning("Unsupported or mismatched end tag, ignoring: %s", tag)
         if top.closed:
             # TODO: This will have to determine if links should be rendered
             # after the closed tag if link_placement is 'after_block'
diff --git a/gopher_render/cli.py b/gopher_render/cli.py
index c17e14f..f00e8d1 100644
--- a/gopher_render/cli.py
+++ b/gopher_render/cli.py
@@ -1,4 +1,5 @@
 import argparse
+import logging
 from pathlib import Path
 # TODO: Optional modules should be optional!
 import markdown
@@ -20,6 +21,7 @@ def _parse_arguments():
 
 def main():
     args = _parse_arguments()
+    logging.basicConfig(format="%(message)s")
     source_text = None
     source_path = Path(args.source)
     with open(source_path, 'r') as in_file:
-- 
2.43.0


From 30d3b1b7e9a4d45e0c2bb1e9e5c082457a3c0b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 12/27] fix: write the destination file

---
 gopher_render/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/cli.py b/gopher_render/cli.py
index f00e8d1..7f9dc17 100644
--- a/gopher_render/cli.py
+++ b/gopher_render/cli.py
@@ -65,8 +65,8 @@ def main():
     parser.feed(source_text)
     parser.close()
 
-    #with open(args.destination, 'w') as out_file:
-    #    out_file.write(parser.parsed)
+    with open(args.destination, 'w') as out_file:
+        out_file.write(parser.parsed)
 
     print(parser.parsed)
 
-- 
2.43.0


From a745a2b7ced8541bd95ba029c87e890a1af84268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 13/27] fix: tabs and line breaks in links must not break
 gophermap entries

---
 gopher_render/rendering.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index f46d291..fe09912 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -723,6 +723,21 @@ class LinkRenderer(InlineRenderer):
             )
 
 
+def _menu_field(value):
+    """
+    Make a value safe for use as a field in a gophermap, where tabs separate
+    fields and line breaks separate entries.
+    """
+    return " ".join(str(value).split())
+
+
+def _menu_selector(value):
+    """
+    Remove the characters that cannot be part of a selector in a gophermap.
+    """
+    return "".join(str(value).splitlines()).replace("\t", "")
+
+
 class ExtractedLinkRenderer(BlockRenderer):
 
     # TODO: The block rendering is adding an entire line's worth of whitespace at
@@ -751,11 +766,11 @@ class ExtractedLinkRenderer(BlockRenderer):
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-                description=super()._inner_render(description),
+                description=_menu_field(super()._inner_render(description)),
                 link_reference=link_ref,
-                selector=gopher_link['selector'],
+                selector=_menu_selector(gopher_link['selector']),
                 type=gopher_link['type'],
-                host=gopher_link['host'],
+                host=_menu_field(gopher_link['host']),
                 port=gopher_link['port'],
             )
         else:
@@ -862,11 +877,11 @@ class ExtractedImageLinkRenderer(BlockRenderer):
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-                description=super()._inner_render(description),
+                description=_menu_field(description),
                 link_reference=link_ref,
-                selector=gopher_link['selector'],
+                selector=_menu_selector(gopher_link['selector']),
                 type=gopher_link['type'],
-                host=gopher_link['host'],
+                host=_menu_field(gopher_link['host']),
                 port=gopher_link['port'],
             )
         else:
-- 
2.43.0


From 414ea87280405771e2d10d727e9d4af8250cba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 14/27] fix: gophermap entries for images must not be padded
 like blocks

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index fe09912..3b8c706 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -848,7 +848,7 @@ class ImageRenderer(InlineRenderer):
             )
 
 
-class ExtractedImageLinkRenderer(BlockRenderer):
+class ExtractedImageLinkRenderer(ExtractedLinkRenderer):
 
     settings = dict(
         templates=["\n[{link_reference}] {description}: {href}", '\n[{link_reference}] {description}: {href} "{title}"'],
@@ -887,7 +887,7 @@ class ExtractedImageLinkRenderer(BlockRenderer):
         else:
             template = settings.templates[0]
             keywords = dict(
-                description=super()._inner_render(trimmed_title),
+                description=trimmed_title,
                 link_reference=self.context["link_reference"],
                 href=href,
             )
-- 
2.43.0


From 63417518e29c899341894a0f20062994e0324d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 15/27] fix: gophermap entries in the footer must not be
 indented

---
 gopher_render/_parser.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index d891f6f..c4d5ea8 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -663,19 +663,22 @@ class GopherHTMLParser(HTMLParser):
             self._parsed.append(t.render(self._box))
         self._parsed.extend(self.tree.render_pending_links(self._box))
 
+        footer = ""
         if len(self._footer_pending_links) > 0:
-            self._parsed.append("\n")
-            for l in self._footer_pending_links:
-                self._parsed.append(l.link_render(self._box))
+            footer = "\n" + "".join(
+                l.link_render(self._box) for l in self._footer_pending_links
+            )
+            if self._output_format != 'gophermap':
+                self._parsed.append(footer)
+                footer = ""
 
         # TODO: Some variation here within our box model:
-        # Gophermap links should definitely not be indented, but this naively
-        # indents everything. If link placement is footer this should be easy
-        # enough to avoid, but for inter-block links it will be troublesome.
+        # Gophermap links should definitely not be indented, and those in the
+        # footer are not, but for inter-block links it will be troublesome.
         # Could perhaps identify the points where links need to be inserted
         # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
-        indented = self._indent_body()
+        indented = self._indent_body() + footer
         self.parsed = "{}{}{}".format(
             "\n" * self._box.margin[BoxSide.TOP],
             indented,
-- 
2.43.0


From 4f33395ff595b9f66eb859aa829207375d177b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 16/27] fix: wrapping must not cut escape sequences in two

---
 gopher_render/_textwrap.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 17a3cab..d65f8ac 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -27,12 +27,48 @@ def _len(obj):
     return len(actual)
 
 
+def _index_after(text, count):
+    """
+    Find the index in the text that follows the given number of visible
+    characters.
+    """
+    index = 0
+    while index < len(text):
+        escape = _escape_regex.match(text, index)
+        if escape:
+            index = escape.end()
+        elif count > 0:
+            index += 1
+            count -= 1
+        else:
+            break
+    return index
+
+
 class AnsiAwareTextWrapper(TextWrapper):
     """
     This TextWrapper subclass ignores ANSI escape sequences when determining
     the length of wrapped lines.
     """
 
+    def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
+        """
+        As the method of the base class, but ANSI escape sequences are not
+        counted, and never cut in two.
+        """
+        space_left = 1 if width < 1 else width - cur_len
+        if self.break_long_words:
+            chunk = reversed_chunks[-1]
+            end = _index_after(chunk, space_left)
+            if self.break_on_hyphens and _len(chunk) > space_left:
+                hyphen = chunk.rfind('-', 0, end)
+                if hyphen > 0 and any(c != '-' for c in chunk[:hyphen]):
+                    end = hyphen + 1
+            cur_line.append(chunk[:end])
+            reversed_chunks[-1] = chunk[end:]
+        elif not cur_line:
+            cur_line.append(reversed_chunks.pop())
+
     def _wrap_chunks(self, chunks):
         """
         An exact reimplementation of the method from the base class, but using
-- 
2.43.0


From eefe2fbef6ffcb9ddd847fc9cb815f3750bc63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 17/27] fix: capitals and spreading must not damage escape
 sequences

---
 gopher_render/_textwrap.py | 17 +++++++++++++++++
 gopher_render/rendering.py | 16 ++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index d65f8ac..3526d92 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -27,6 +27,23 @@ def _len(obj):
     return len(actual)
 
 
+def split_escapes(text):
+    """
+    Split the text into (is_escape, part) pairs, where each part is either a
+    single ANSI escape sequence or text without any.
+    """
+    parts = []
+    index = 0
+    for escape in _escape_regex.finditer(text):
+        if escape.start() > index:
+            parts.append((False, text[index:escape.start()]))
+        parts.append((True, escape.group()))
+        index = escape.end()
+    if index < len(text):
+        parts.append((False, text[index:]))
+    return parts
+
+
 def _index_after(text, count):
     """
     Find the index in the text that follows the given number of visible
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 3b8c706..2cd0c5d 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -83,12 +83,24 @@ justifications = {
 # should probably match the method name
 # TODO: Should may deal with casing the same way as the justifications...
 def capitalize(text):
-    return text.upper()
+    return "".join(
+        part if is_escape else part.upper()
+        for is_escape, part in textwrap.split_escapes(text)
+    )
 
 
 def spread(text, spread_char, count):
     s = spread_char * count
-    return s.join(text)
+    spreaded = []
+    first = True
+    for is_escape, part in textwrap.split_escapes(text):
+        if is_escape:
+            spreaded.append(part)
+            continue
+        for char in part:
+            spreaded.append(char if first else s + char)
+            first = False
+    return "".join(spreaded)
 
 
 class BoxSide:
-- 
2.43.0


From d292438042f6ae253b903a4bb827f9da808aeff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 18/27] fix: the font setting must not raise an error

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 2cd0c5d..9904b38 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1350,7 +1350,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
 
         # Fonts
         if settings.font is not None:
-            enable.append(ANSI_ESCAPE_SEQUENCE.format(setting.font + ANSI_FONT_OFFSET))
+            enable.append(ANSI_ESCAPE_SEQUENCE.format(settings.font + ANSI_FONT_OFFSET))
             if not normalise:
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
-- 
2.43.0


From 7ed11207ead92c35c4ef5756bd8b644961a79e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 19/27] fix: full justification must not remove spaces from
 styled lines

---
 gopher_render/rendering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 9904b38..919d0aa 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -14,9 +14,10 @@ def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
     for line in lines[:-1]:
-        orig_len = len(line)
+        # Escape sequences take up no space
+        orig_len = textwrap._len(line)
         ls = line.lstrip()
-        indent = ' ' * (orig_len - len(ls))
+        indent = ' ' * (len(line) - len(ls))
         padding_spaces = width - orig_len
         rs = ls.rstrip()
         #padding_spaces = len(ls) - len(rs)
-- 
2.43.0


From 3f0b9570af553d80cbbe11ed6f905594db2b93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 20/27] fix: links must honour settings from the renderer maps

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index c4d5ea8..a0821e7 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -242,10 +242,10 @@ class LinkParser(TagParser):
             renderer = self.link_renderer
             renderer_settings = self.link_renderer_settings
 
-        render_inst = renderer(self, **render_context)
         if renderer_settings is not None:
             render_context['settings'] = renderer_settings
 
+        render_inst = renderer(self, **render_context)
         try:
             box = render_inst.box
         except AttributeError:
-- 
2.43.0


From a5fef820a90bf57d6869c354bd989bcd02bdf407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 21/27] fix: trimming link descriptions must not damage escape
 sequences

---
 gopher_render/_textwrap.py | 15 +++++++++++++++
 gopher_render/rendering.py |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 3526d92..e18a933 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -44,6 +44,21 @@ def split_escapes(text):
     return parts
 
 
+def truncate(text, length):
+    """
+    Truncate the text to a number of visible characters. All escape sequences
+    are kept, so that any effects that are enabled are also disabled.
+    """
+    truncated = []
+    for is_escape, part in split_escapes(text):
+        if is_escape:
+            truncated.append(part)
+        else:
+            truncated.append(part[:length])
+            length -= len(part[:length])
+    return "".join(truncated)
+
+
 def _index_after(text, count):
     """
     Find the index in the text that follows the given number of visible
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 919d0aa..056bae9 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -769,8 +769,8 @@ class ExtractedLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        trimming = len(content) > max_link_description
-        content = content.strip()[:max_link_description]
+        trimming = textwrap._len(content) > max_link_description
+        content = textwrap.truncate(content.strip(), max_link_description)
         if trimming:
             content = "{}...".format(content)
 
-- 
2.43.0


From e2ef0c95db195490447660bea0c09d799455e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 22/27] fix: a blank host in a gopher URL must not leave the
 host field of its entry empty

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index a0821e7..7cfb8e6 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -180,7 +180,7 @@ class LinkParser(TagParser):
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
-                host=parsed.hostname or self._context['gopher_host'],
+                host=(parsed.hostname or '').strip() or self._context['gopher_host'],
                 port=port or 70,
             )
         elif parsed.scheme == '':
-- 
2.43.0


From fd799d3ecd8cf829da6895dc36acf440dab0d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:08 +0000
Subject: [PATCH 23/27] fix: deep nesting must not multiply the lines of a
 document

---
 gopher_render/rendering.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 056bae9..0f15237 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -170,14 +170,12 @@ class Box(object):
         Block content should be wrapped to this width.
         """
         def fget(self):
-            # Deeply nested elements can use up all of the width, but text
-            # cannot be wrapped to nothing.
-            return max(1, self.width - (
+            return self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
                 self.total_padding[BoxSide.LEFT] + self.total_padding[BoxSide.RIGHT] +
                 self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
                 self.total_line_template_padding
-            ))
+            )
         return locals()
     inner_width_excluding_line_template = property(**inner_width_excluding_line_template())
 
@@ -631,6 +629,10 @@ class ParagraphRenderer(BlockRenderer):
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
         width = self.box.inner_width_excluding_line_template
+        if width < 1:
+            # Deeply nested elements can use up all of the width, but text
+            # cannot be wrapped to nothing.
+            justify_func = _noop
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         #template = settings['template']
@@ -1086,6 +1088,10 @@ class ListItemRenderer(BlockRenderer):
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
         width = self.box.inner_width_excluding_line_template
+        if width < 1:
+            # Deeply nested elements can use up all of the width, but text
+            # cannot be wrapped to nothing.
+            justify_func = _noop
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         justified = justify_func(inner, width, **justify_args)
@@ -1203,6 +1209,10 @@ class DefinitionListItemRenderer(BlockRenderer):
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
         width = self.box.inner_width_excluding_line_template
+        if width < 1:
+            # Deeply nested elements can use up all of the width, but text
+            # cannot be wrapped to nothing.
+            justify_func = _noop
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         justified = justify_func(inner, width, **justify_args)
-- 
2.43.0


From 9f489a0158ddd752f18b37e0f9ef3548e53baea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 24/27] fix: the console script's entry point must exist

---
 gopher_render/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/__main__.py b/gopher_render/__main__.py
index a59b396..9ae637f 100644
--- a/gopher_render/__main__.py
+++ b/gopher_render/__main__.py
@@ -1,4 +1,4 @@
+from .cli import main
 
 if __name__ == "__main__":
-    from .cli import main
     main()
-- 
2.43.0


From 4d5012df70c8784d8b6fce53e65c80057a1d9860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 25/27] fix: compare attribute selectors with the value rather
 than its token

---
 gopher_render/_selectors.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 32a6cb5..b7f0120 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -146,19 +146,21 @@ def _attribute_matches(tag, selector):
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
+        # The value is the token that cssselect read
+        value = selector.value.value
         if selector.operator == '=':
-            return attr_val == selector.value
+            return attr_val == value
         if selector.operator == '~=':
             split_val = attr_val.split()
-            return selector.value in split_val
+            return value in split_val
         if selector.operator == '|=':
-            return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
+            return attr_val == value or attr_val.startswith("{}-".format(value))
         if selector.operator == '^=':
-            return attr_val.startswith(selector.value)
+            return attr_val.startswith(value)
         if selector.operator == '$=':
-            return attr_val.endswith(selector.value)
+            return attr_val.endswith(value)
         if selector.operator == '*=':
-            return selector.value in attr_val
+            return value in attr_val
     return False
 
 
-- 
2.43.0


From 91e0aa3be29f5a5453c3def906f1ec0d3d20adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 26/27] fix: publish the text of a document only when it is
 complete

With optimise, close() first published the text without the clean-up, and
replaced it afterwards. A reader in another thread saw the unfinished text,
and so did everybody when the clean-up was interrupted.
---
 gopher_render/_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7cfb8e6..a27cd36 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -634,11 +634,10 @@ class GopherHTMLParser(HTMLParser):
 
             self._assign_renderers(tag.children)
 
-    def _optimise_parsed(self):
+    def _optimise_parsed(self, parsed):
         """
         Remove extraeous whitespace to the right of the text.
         """
-        parsed = self.parsed
         split = parsed.split('\n')
         optimised = [l.rstrip() for l in split]
         return '\n'.join(optimised)
@@ -679,13 +678,15 @@ class GopherHTMLParser(HTMLParser):
         # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
         indented = self._indent_body() + footer
-        self.parsed = "{}{}{}".format(
+        parsed = "{}{}{}".format(
             "\n" * self._box.margin[BoxSide.TOP],
             indented,
             "\n" * self._box.margin[BoxSide.BOTTOM]
         )
         if self._optimise:
-            self.parsed = self._optimise_parsed()
+            parsed = self._optimise_parsed(parsed)
+        # Only now is the text complete
+        self.parsed = parsed
 
     def reset(self):
         super().reset()
-- 
2.43.0


From d2a8fe28205b226c71519cc746fcc5cbc6dd9c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 27/27] fix: look through the children of an element once, not
 once for each of them

The selectors :first-child and :last-child made a list of all the siblings for
each element, and each item of an ordered list went through all the items, so
the work grew with the square of the number of siblings.
---
 gopher_render/_parser.py   | 61 +++++++++++++++++++++++++++-----------
 gopher_render/rendering.py |  3 +-
 2 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index a27cd36..0cbfa61 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -27,13 +27,52 @@ _logger = logging.getLogger(__name__)
 _logger.addHandler(logging.NullHandler())
 
 
+class _Parent(object):
+    """
+    Something with children, which are only ever added to the end.
+    """
+
+    def __init__(self):
+        self.children = []
+        self._tag_children = []
+        self._indexed = 0
+
+    def _index(self):
+        """
+        Take note of the children added since the last time.
+        """
+        if self._indexed == len(self.children):
+            return
+        tags = [t for t in self.children if t.tag is not None]
+        counts = {}
+        for t in tags:
+            t.position = counts.get(t.tag, 0)
+            counts[t.tag] = t.position + 1
+        self._tag_children = tags
+        self._indexed = len(self.children)
+
+    def tag_children(self):
+        """
+        Return only the children that represent tags (i.e. exclude any DataParsers)
+        """
+        self._index()
+        return self._tag_children
+
+    def tag_position(self, tag):
+        """
+        Return the number of children with the same name in front of this one.
+        """
+        self._index()
+        return tag.position
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
-class TagParser(object):
+class TagParser(_Parent):
 
     def __init__(self, tag, parent, attrs, **context):
+        super().__init__()
         self.tag = tag
         self.parent = parent
-        self.children = []
         self.closed = tag in ('br', 'img')
         self.attrs = {}
         self.classes = []
@@ -47,12 +86,6 @@ class TagParser(object):
         self._context = context
         self._pending_links = []
 
-    def tag_children(self):
-        """
-        Return only the children that represent tags (i.e. exclude any DataParsers)
-        """
-        return [t for t in self.children if t.tag is not None]
-
     def __extract_classes(self):
         if 'class' in self.attrs:
             # The value is None if there is no "=" after the name
@@ -311,7 +344,7 @@ class DataParser(TagParser):
         return self.data
 
 
-class DocumentParser(object):
+class DocumentParser(_Parent):
     """
     Implicit root for the document, even if the html being parsed is only a
     fragment.
@@ -320,15 +353,9 @@ class DocumentParser(object):
     be the parent.
     """
     def __init__(self):
-        self.children = []
+        super().__init__()
         self._pending_links = []
 
-    def tag_children(self):
-        """
-        Return only the children that represent tags (i.e. exclude any DataParsers)
-        """
-        return [t for t in self.children if t.tag is not None]
-
     def append(self, tag):
         self.children.append(tag)
 
@@ -346,7 +373,7 @@ class DocumentParser(object):
         return rendered
 
     def reset(self):
-        self.children = []
+        super().__init__()
         self._pending_links = []
 
 
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 0f15237..e0b693e 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1129,8 +1129,7 @@ class OrderedListItemRenderer(ListItemRenderer):
 
     def _get_ordinal(self, tag, start_index, step):
         # Only other items count, not any text between them.
-        items = [c for c in tag.parent.children if c.tag == tag.tag]
-        return (items.index(tag) * step) + start_index
+        return (tag.parent.tag_position(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0

