From 55f0ed77a43eec6e58564ee25e5e328af6f4cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 01/58] fix: escape backslashes and carriage returns in PDF
 string objects

---
 pdfme/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 4aafb09..9080ed1 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -82,7 +82,9 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, (int, float)):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-        return ('(' + re.sub(r'([()])', r'\\\1', obj) + ')').encode('latin')
+        # a raw carriage return would be read back as a line feed
+        text = re.sub(r'([\\()])', r'\\\1', obj).replace('\r', '\\r')
+        return ('(' + text + ')').encode('latin')
 
 
 def parse_dict(obj: dict) -> bytes:
-- 
2.43.0


From 0334ca6432b31bd517d648223f4e1729051d821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 02/58] fix: never write numbers in exponent notation

---
 pdfme/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 9080ed1..3afba45 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -80,7 +80,11 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, bool):
         return b'true' if obj else b'false'
     elif isinstance(obj, (int, float)):
-        return str(obj).encode('latin')
+        text = str(obj)
+        if 'e' in text:
+            # there is no exponent notation in PDF
+            text = '{:.10f}'.format(obj)
+        return text.encode('latin')
     elif isinstance(obj, str):
         # a raw carriage return would be read back as a line feed
         text = re.sub(r'([\\()])', r'\\\1', obj).replace('\r', '\\r')
-- 
2.43.0


From 4a86109c5f4686a3cc70ef42070e636a59635a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 03/58] fix: parse margins given as a one number string or as a
 tuple of three

---
 pdfme/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 45f12ab..5d868bf 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -113,7 +113,7 @@ def parse_margin(margin: MarginType) -> dict:
     if isinstance(margin, str):
         margin = re.split(',| ', margin)
         if len(margin) == 1:
-            margin = float(margin)
+            margin = float(margin[0])
         else:
             margin = [float(x) for x in margin]
 
@@ -128,7 +128,7 @@ def parse_margin(margin: MarginType) -> dict:
         elif len(margin) == 2:
             margin = margin * 2
         elif len(margin) == 3:
-            margin = margin + [margin[1]]
+            margin = [*margin, margin[1]]
         elif len(margin) > 4:
             margin = margin[0:4]
 
-- 
2.43.0


From 9ac6dbeb30018057c48947c4d2e8d3f1fab51407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 04/58] fix: accept bool attributes with a value and spaces
 before s and r in style strings

---
 pdfme/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 5d868bf..5506fe4 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -196,7 +196,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element "{}" must be 0 or 1: {}'
                         .format(attr, value)
                     )
-            if attr == "f":
+            elif attr == "f":
                 if value not in fonts.fonts:
                     font_found = False
 
@@ -216,7 +216,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                 style['c'] = PDFColor(value)
             elif attr == "bg":
                 style['bg'] = PDFColor(value)
-            elif attrs[0] == "s":
+            elif attr == "s":
                 try:
                     v = float(value)
                     if int(v) == v:
@@ -227,7 +227,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element value for "s" is wrong:'
                         ' {}'.format(value)
                     )
-            elif attrs[0] == 'r':
+            elif attr == 'r':
                 try: style['r'] = float(value)
                 except:
                     raise ValueError(
-- 
2.43.0


From 2fa22ea52ba7fc0fcb4d52d48ac9efa341325494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 05/58] fix: a label on an element that continues on the next
 page leads to where it starts

---
 pdfme/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6e2c145..839c005 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -598,6 +598,9 @@ class PDF:
             if len(rects) == 0:
                 continue
             if id_.startswith('$label:'):
+                if id_[7:] in self.dests:
+                    # the continuation of an element that started before
+                    continue
                 d = rects[0]
                 x_ref = x + d[0]
                 self.dests[id_[7:]] = [
-- 
2.43.0


From 29795b1f388fa141c511d49fe3aee485ba5be863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 06/58] fix: the count of a closed outline is the number of its
 entries

---
 pdfme/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 839c005..bff47d9 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1039,7 +1039,7 @@ class PDF:
                     count += count_
                     obj['Count'] = count_
                 else:
-                    obj['Count'] = -1
+                    obj['Count'] = -count_
 
         parent['Last'] = obj.id
         return count
-- 
2.43.0


From 9ee4a3680bb08fe52ff5e2b4f469601278a0b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 07/58] fix: an outline of an element that continues on the
 next page is added once

---
 pdfme/pdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index bff47d9..393d563 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -170,6 +170,7 @@ class PDF:
         self.pages = []
         self.running_sections = []
         self.outlines = []
+        self.outline_ids = set()
 
         self.base = PDFBase()
         self.root = self.base.add({ 'Type': b'/Catalog'})
@@ -633,6 +634,10 @@ class PDF:
                         ]
                     )
             elif id_.startswith('$outline:'):
+                if id_ in self.outline_ids:
+                    # the continuation of an element that started before
+                    continue
+                self.outline_ids.add(id_)
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
-- 
2.43.0


From ab4f3e2a59ea6512adff6e25e590e22bf17b3d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 08/58] fix: the default text of an outline leaves out the
 styles of its parts

---
 pdfme/text.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 7e05300..e0e5fd1 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -1242,6 +1242,28 @@ class PDFText(PDFTextBase):
         self.content.append(text_part)
         return text_part
 
+    def _plain_text(self, elements: Union[list, tuple]) -> str:
+        """Method to get the text of a list of paragraph elements, without
+        their styles.
+
+        Args:
+            elements (list, tuple): the elements of a paragraph part.
+
+        Returns:
+            str: the text of the elements.
+        """
+        text = ''
+        for element in elements:
+            if isinstance(element, dict):
+                value = next(
+                    (v for k, v in element.items() if k.startswith('.')), []
+                )
+                if not isinstance(value, (list, tuple)):
+                    value = [value]
+                element = self._plain_text(value)
+            text += str(element)
+        return text
+
     def _recursive_content_parse(
         self, content: ContentType, parent_style: dict, ids: list
     ) -> None:
@@ -1310,7 +1332,7 @@ class PDFText(PDFTextBase):
             text_part['ids'].append('$uri:' + uri)
         outline = content.get('outline')
         if isinstance(outline, dict):
-            text = outline.get('text', ''.join(str(e) for e in elements))
+            text = outline.get('text', self._plain_text(elements))
             level = outline.get('level', 1)
             if label is None:
                 outline_label = str(uuid4())
-- 
2.43.0


From 5f5b4b09b30150135b789828537652b676cd5931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 09/58] fix: JPEG markers preceded by fill bytes are read

---
 pdfme/image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index e45d28f..2f72bb0 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -94,6 +94,9 @@ class PDFImage:
         try:
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
+                while markerHigh == 0xFF and markerLow == 0xFF:
+                    # a marker may be preceded by any number of fill bytes
+                    (markerLow,) = struct.unpack("B", bytes_.read(1))
                 if markerHigh != 0xFF or markerLow < 0xC0:
                     raise SyntaxError("No JPEG marker found")
                 elif markerLow == 0xDA:
-- 
2.43.0


From e081a29198ac23d28b78b03cdf65b9685d619760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 10/58] fix: special characters of a list marker are escaped

---
 pdfme/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index e0e5fd1..a40a941 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -867,8 +867,8 @@ class PDFTextBase:
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
                         (font.encode_text(self.list_text) if
-                            font else self.list_text),
-                        first_indent
+                            font else self.clean_words([self.list_text])),
+                        round(first_indent, 3)
                     )
                 else:
                     self.text += ' {} -{} Td'.format(
-- 
2.43.0


From e27c9b41b1f2e772104ab8fe0026716ee5d3565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 11/58] fix: a carriage return in a text is escaped

---
 pdfme/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index a40a941..88d66ee 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -930,6 +930,7 @@ class PDFTextBase:
         text = ''.join(word for word in words)
         if text != '':
             text = text.replace('\\',r'\\').replace('(','\\(').replace(')','\\)')
+            text = text.replace('\r', '\\r')
         return text
 
     def output_text(self, part: PDFTextLinePart, text, factor: Number=1) -> str:
-- 
2.43.0


From 952264901bc6809d3fea099e29a7f6130ccd99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 12/58] fix: lines of a list paragraph leave room for its
 indent after a break

---
 pdfme/text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 88d66ee..0e3634c 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -603,6 +603,8 @@ class PDFTextBase:
         self.lines = []
 
         line_width = self.width - (self.indent if self.is_first_line else 0)
+        if self.list_setup_done:
+            line_width -= self.list_indent
         self.current_line = PDFTextLine(
             self.fonts, line_width, self.text_align, self.line_height
         )
@@ -644,8 +646,11 @@ class PDFTextBase:
                     self.last_part_added = part_index + 1
                     self.last_word_added = 0
                     continue_ = self.add_current_line(True)
+                    line_width = self.width
+                    if self.list_setup_done:
+                        line_width -= self.list_indent
                     self.current_line = PDFTextLine(
-                        self.fonts, self.width, self.text_align,
+                        self.fonts, line_width, self.text_align,
                         self.line_height
                     )
                     if not continue_:
-- 
2.43.0


From f082945e57983e0f9e75f8cb88dd9d6f7514fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 13/58] fix: only the last line of a justified paragraph is
 left unjustified

---
 pdfme/text.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 0e3634c..484cb94 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -705,7 +705,6 @@ class PDFTextBase:
                 for w in re.split('( +)', words)
                 if w != ''
             ]
-        is_last_part = part_index == len(self.content) - 1
 
         for word_index in range(self.last_word, len(words)):
             word = words[word_index]
@@ -714,9 +713,7 @@ class PDFTextBase:
                 self.last_part_added = part_index
                 self.last_word_added = word_index + 1
             elif ans['status'] == 'finished':
-                continue_ = self.add_current_line(
-                    is_last_part and word_index == len(words) - 1
-                )
+                continue_ = self.add_current_line()
                 ans['new_line'].max_width = self.width - (
                     self.list_indent if self.list_text else 0
                 )
-- 
2.43.0


From f7badaf0a2330ea984cedf90efb143195e70c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 14/58] fix: the last line of a justified paragraph stays
 inside its rectangle

---
 pdfme/text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 484cb94..76302ec 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -896,6 +896,11 @@ class PDFTextBase:
         self.y_ -= full_line_height
 
         factor = 1 if ignore_factor else factor_width / spaces_width
+        if self.text_align == 'j' and is_last and spaces_width > 0:
+            # the line was filled with its spaces shrunk
+            factor = max(
+                line.justify_min_factor, min(1, factor_width / spaces_width)
+            )
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
-- 
2.43.0


From 748ab8f8dcf4316be48c05a90d82542bad31b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 15/58] fix: the indent of a paragraph is taken back once, and
 only if it was applied

---
 pdfme/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 76302ec..ae18d4f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -468,7 +468,6 @@ class PDFTextBase:
         self.content = content
         self.finished = False
         self.is_first_line = True
-        self.correct_indent = True
         self.list_setup_done = False
 
     @property
@@ -596,6 +595,7 @@ class PDFTextBase:
         self.graphics = ''
         self.ids = {}
         self.first_line_added = False
+        self.correct_indent = False
 
         self.used_fonts = set()
         self.current_line_used_fonts = set()
@@ -833,7 +833,9 @@ class PDFTextBase:
             self.started = True
             if self.is_first_line:
                 factor_width -= self.indent
-                x += self.indent
+                if self.text_align not in ['r', 'c']:
+                    x += self.indent
+                    self.correct_indent = True
                 self.is_first_line = False
 
                 first_indent = (
-- 
2.43.0


From baa37e2bfc076d8fdd2246e874be997e7ebb6acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 16/58] fix: right aligned and centered list paragraphs leave
 room for the list indent

---
 pdfme/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index ae18d4f..270f003 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -822,7 +822,7 @@ class PDFTextBase:
         factor_width = self.width - words_width - x
         adjusted_indent = 0
         if self.text_align in ['r', 'c']:
-            indent = self.width - words_width - spaces_width
+            indent = factor_width - spaces_width
             if self.text_align == 'c':
                 indent /= 2
             x += indent
-- 
2.43.0


From 3359a878ec92d98c8f65887d68dd5a86e1eabf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 17/58] fix: a list marker larger than its text keeps the
 paragraph inside its rectangle

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 270f003..39e2872 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -741,6 +741,8 @@ class PDFTextBase:
             )
 
         line_height = self.current_line.height
+        if self.is_first_line and self.list_setup_done:
+            line_height = max(line_height, self.list_state.size)
         if self.first_line_added:
             line_height *= self.line_height
         else:
-- 
2.43.0


From c1ec63e765d8ef36bd618e3fd95b8bca987fe7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 18/58] fix: white space that goes on in the next part of a
 paragraph is one space

---
 pdfme/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 39e2872..fa280e9 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -340,6 +340,7 @@ class PDFTextLine:
                 if self.is_last_word_space:
                     return {'status': 'ignored'}
                 else:
+                    self.is_last_word_space = True
                     self.add_accumulated()
                     return {'status': 'added'}
             else:
-- 
2.43.0


From 540630723e48cf3459f86c0cb146a456ea222cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 19/58] fix: a row that does not start on a page stays inside
 the rectangle of its table

---
 pdfme/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ae4f59e..3bd7c89 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -818,7 +818,10 @@ class PDFTable:
         else:
             self.delayed[col] = delayed
 
-        real_height += padd_y if real_height>0 else (0 if self.first_row else 4)
+        if real_height > 0:
+            real_height += padd_y
+        elif not self.first_row:
+            real_height = min(4, self.row_max_height)
         if rowspan > 0:
             self.heights_mem[col] = real_height
             real_height = 0
-- 
2.43.0


From a4196489917bd043988da8232b11b54924b64f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 20/58] fix: the fills of a table are drawn over the default
 cell fill

---
 pdfme/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index 3bd7c89..7dab187 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -687,6 +687,7 @@ class PDFTable:
             style = {}
         else:
             style = copy(self.style)
+            style.pop('cell_fill', None)
 
             if element is None:
                 element = ''
@@ -735,6 +736,9 @@ class PDFTable:
                 self.fills_defs.get(self.current_index, {}).get(col, None)
             )
 
+        if fill_color is None:
+            fill_color = self.style.get('cell_fill', None)
+
         if fill_color is not None:
             self.fills_mem[col] = { 'type': 'fill', 'x': self.x_abs,
                 'y': self.y_abs, 'width': width, 'height': 0,
-- 
2.43.0


From 545b2d2d90c6c322032c12130fd5c161856c3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 21/58] fix: positions of borders and fills are slices like
 those of a list

---
 pdfme/table.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 7dab187..bae7aea 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -300,15 +300,11 @@ class PDFTable:
         """
         data = ':' if data == '' else data
         if ':' in data:
-            parts = data.split(':')
-            num = 0 if parts[0].strip() == '' else int(parts[0])
-            parts[0] = num if num >= 0 else count + num
-            if len(parts) > 1:
-                num = count if parts[1].strip() == '' else int(parts[1])
-                parts[1] = num if num >= 0 else count + num
-            if len(parts) > 2:
-                parts[2] = 1 if parts[2].strip() == '' else int(parts[2])
-            return range(*parts)
+            parts = [
+                None if part.strip() == '' else int(part)
+                for part in data.split(':')
+            ]
+            return range(count)[slice(*parts)]
         else:
             return [
                 count + int(i) if int(i) < 0 else int(i)
-- 
2.43.0


From 3e57737f3980b5daa43a8681ea9a495ca132a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 22/58] fix: balancing the columns of a content box draws its
 borders and fills once

---
 pdfme/content.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index 983f1ed..e178a36 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -389,6 +389,8 @@ class PDFContentPart:
         self.will_reset = False
         self.resetting = False
         self.parts_index = len(self.p.parts)
+        self.lines_index = len(self.p.lines)
+        self.fills_index = len(self.p.fills)
 
         self.minim_diff_last = None
         self.minim_diff = None
@@ -649,6 +651,8 @@ class PDFContentPart:
 
         self.will_reset = False
         self.p.parts = self.p.parts[:self.parts_index]
+        self.p.lines = self.p.lines[:self.lines_index]
+        self.p.fills = self.p.fills[:self.fills_index]
         self.go_to_beginning()
 
         if self.minim_diff is None:
@@ -727,6 +731,8 @@ class PDFContentPart:
                 self.min_y = ret['min_y']
                 self.min_x = ret['min_x']
                 self.parts_index = len(self.p.parts)
+                self.lines_index = len(self.p.lines)
+                self.fills_index = len(self.p.fills)
                 self.go_to_beginning()
                 return 'retry' if children_memory is None else ret
         else:
-- 
2.43.0


From 2fab08b8e84d5080215aae9361b04248343002d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 23/58] fix: numbers are printed as elements of a content box

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index e178a36..870ee49 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -788,7 +788,7 @@ class PDFContentPart:
 
     def parse_element(self, element: ProcessElement) -> dict:
         if not isinstance(element, (dict, str, list, tuple)):
-            return str(element)
+            element = str(element)
         if isinstance(element, (str, list, tuple)):
             return {'.': element}
 
-- 
2.43.0


From d33cb5ace8f62f0f8efa77f8c0d43baa8efeb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 24/58] fix: a group is placed where it was measured

---
 pdfme/content.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 870ee49..9f18334 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1132,9 +1132,12 @@ class PDFContentPart:
             dict: Containing instructions to the caller.
         """
         initial_y = self.y
+        initial_starting = self.starting
+        initial_last_bottom = self.last_bottom
 
         if not self.starting:
             self.y -=  style.get('margin_top', 0)
+        group_y = self.y
 
         images = {}
         images_size = 0
@@ -1158,11 +1161,15 @@ class PDFContentPart:
                     )
                 group_element['tries'] += 1
                 self.y = initial_y
+                self.starting = initial_starting
+                self.last_bottom = initial_last_bottom
                 return {'delayed': group_element, 'next': False, 'flow': True}
 
         new_images_size = images_size + self.y - self.max_y
         image_ratio = new_images_size / images_size if len(images) else 1
-        self.y = initial_y
+        self.y = group_y
+        self.starting = initial_starting
+        self.last_bottom = initial_last_bottom
 
         for i, element in enumerate(group_element['group']):
             min_height = None
-- 
2.43.0


From 3f5e5a5d7f0be495ff13832cd72b6f66fa7a865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 25/58] fix: a paragraph set back to a saved state goes on
 there when nothing fits

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index fa280e9..8a01a6c 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -590,6 +590,8 @@ class PDFTextBase:
 
         This function is called by method ``run``.
         """
+        self.last_part_added = self.last_part_line = self.last_part
+        self.last_word_added = self.last_word_line = self.last_word
         self.started = False
         self.lines = []
         self.text = ''
-- 
2.43.0


From d245e47496786114e616399f93e44b036f7e59a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 26/58] fix: the delayed cells of a table are part of its
 restored state

---
 pdfme/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index bae7aea..c25d9cc 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -245,8 +245,8 @@ class PDFTable:
         """
         if current_index is not None:
             self.current_index = current_index
-        elif delayed is not None:
-            self.delayed = delayed
+        if delayed is not None:
+            self.delayed = copy(delayed)
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From c3c8aff98cc1831d3c60c8967206a70937ca912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 27/58] fix: what follows an enlarged image of a group is not
 lost to rounding

---
 pdfme/content.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 9f18334..09f3cdb 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1165,7 +1165,9 @@ class PDFContentPart:
                 self.last_bottom = initial_last_bottom
                 return {'delayed': group_element, 'next': False, 'flow': True}
 
-        new_images_size = images_size + self.y - self.max_y
+        # keep some slack, for what comes after the images to fit in spite of
+        # rounding errors
+        new_images_size = images_size + max(0, self.y - self.max_y - 1e-6)
         image_ratio = new_images_size / images_size if len(images) else 1
         self.y = group_y
         self.starting = initial_starting
-- 
2.43.0


From 6c00855a35ce3d3a9b24967e20182506fadb6289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 28/58] fix: page ranges may be open at the end

---
 pdfme/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 5506fe4..eeb5be9 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from typing import Any, Iterable, Union
 
 page_sizes = {
@@ -411,9 +412,11 @@ def parse_range_string(range_str: str) -> MuiltiRange:
             first = range_parts[0].strip()
             range_parts[0] = 0 if first == '' else int(first)
             if len(range_parts) > 1:
-                range_parts[1] = int(range_parts[1].strip())
+                last = range_parts[1].strip()
+                range_parts[1] = sys.maxsize if last == '' else int(last)
             if len(range_parts) > 2:
-                range_parts[2] = int(range_parts[2].strip())
+                step = range_parts[2].strip()
+                range_parts[2] = 1 if step == '' else int(step)
             multi_range.add(*range_parts)
 
     return multi_range
-- 
2.43.0


From e4470adc1b97f884a70b290ab531b978054a2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 29/58] fix: the layout of a page or section does not reach the
 following ones

---
 pdfme/document.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index d7881f9..b0bc15b 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -172,6 +172,11 @@ class PDFDocument:
         )
 
         self.style = style
+        # the layout of the pages without their own one
+        self.page_args = dict(
+            page_size=(self.pdf.page_width, self.pdf.page_height),
+            rotate_page=self.pdf.rotate_page, margin=self.pdf.margin
+        )
 
         self.pdf.context.update(context)
 
@@ -309,9 +314,10 @@ class PDFDocument:
             section, self.width, self.height, self.x, self.y
         )
 
-        section_page_args = {
+        section_page_args = copy(self.page_args)
+        section_page_args.update({
             k: section_style[k] for k in PAGE_PROPS if k in section_style
-        }
+        })
 
         while True:
             page_n = len(self.pdf.pages)
-- 
2.43.0


From 66e9c7f3971b9ca98ecf845042ab23518a9cf2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 30/58] fix: running sections are printed in the order given

---
 pdfme/document.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index b0bc15b..17962c3 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -324,7 +324,7 @@ class PDFDocument:
 
             page_args = section_page_args.copy()
 
-            running_sections = set(section.get('running_sections', []))
+            running_sections = [*section.get('running_sections', [])]
 
             for range_dict in self.per_page:
                 if page_n in range_dict['pages']:
@@ -336,10 +336,12 @@ class PDFDocument:
                         })
                     if 'running_sections' in range_dict:
                         per_page_rs = range_dict['running_sections']
-                        running_sections -= set(per_page_rs.get('exclude', []))
-                        running_sections.update(
-                            set(per_page_rs.get('include', []))
-                        )
+                        exclude = per_page_rs.get('exclude', [])
+                        running_sections = [
+                            name for name in running_sections
+                            if name not in exclude
+                        ]
+                        running_sections.extend(per_page_rs.get('include', []))
 
             self.pdf.setup_page(**page_args)
 
@@ -354,6 +356,8 @@ class PDFDocument:
 
             self.section.setup(self.x, self.y, self.width, self.height)
 
+            # each one once, in the order given
+            running_sections = list(dict.fromkeys(running_sections))
             self._set_running_sections(
                 running_sections, page_width, page_height, self.pdf.margin
             )
-- 
2.43.0


From e66fa1fe60798fbab5e09baaa845b88769795193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 31/58] fix: places of running sections may be None

---
 pdfme/document.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 17962c3..1fe7481 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -276,14 +276,18 @@ class PDFDocument:
             if section.get('y') == 'bottom':
                 section['y'] = page_height - margin['bottom']
 
-            width = section.get('width', (
-                page_width - margin['right'] - margin['left']
-            ))
-            height = section.get('height', (
-                page_height - margin['top'] - margin['bottom']
-            ))
-            x = section.get('x', 0)
-            y = section.get('y', 0)
+            width = section.get('width')
+            if width is None:
+                width = page_width - margin['right'] - margin['left']
+            height = section.get('height')
+            if height is None:
+                height = page_height - margin['top'] - margin['bottom']
+            x = section.get('x')
+            if x is None:
+                x = 0
+            y = section.get('y')
+            if y is None:
+                y = 0
             self.pdf.add_running_section(section, width, height, x, y)
 
     def run(self) -> None:
-- 
2.43.0


From 7bfc106f5b7fcb788ef1b7f3e9e211cb9e841504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 32/58] fix: a footnote may have its style as a string

---
 pdfme/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 1fe7481..eaf1c67 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -463,7 +463,8 @@ class PDFDocument:
         content = {'style': '$footnotes', 'content': []}
         for index, footnote in enumerate(page_footnotes):
             footnote = copy(footnote)
-            style = footnote.setdefault('style', {})
+            style = copy(process_style(footnote.get('style'), self.pdf))
+            footnote['style'] = style
             style.update(dict(
                 list_text=str(index + 1) + ' ', list_style='$footnote'
             ))
-- 
2.43.0


From beb62ad91949a88ceb42f6208320d050bfe649cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 33/58] fix: footnotes have the numbers and the space of the
 references of their page

---
 pdfme/document.py | 50 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index eaf1c67..e1af376 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -390,36 +390,50 @@ class PDFDocument:
         self.section.run(height=self.height)
         footnotes_obj = self._process_footnotes()
 
-        if footnotes_obj is None:
-            self.pdf._add_graphics([*self.section.fills,*self.section.lines])
-            self.pdf._add_parts(self.section.parts)
-            self.pdf.page._y -= self.section.current_height
-        else:
-            footnotes_height = footnotes_obj.current_height
+        # lay the contents out again until their footnotes fit in the space
+        # left for them, and have the numbers shown in the contents
+        footnotes_height = 0
+        for _ in range(20):
+            if footnotes_obj is None:
+                break
+            footnotes_height = max(
+                footnotes_height, footnotes_obj.current_height
+            )
             if footnotes_height >= self.height - self.footnotes_margin - 20:
                 raise Exception(
                     "footnotes are very large and don't fit in one page"
                 )
-            new_height = self.height - footnotes_obj.current_height \
+            new_height = self.height - footnotes_height \
                 - self.footnotes_margin
 
             if section_state is not None:
                 self.section.set_state(**section_state)
                 self.section.finished = False
-            self.pdf._content(self.section, height=new_height)
-
+            context = dict(self.pdf.context)
+            self.section.run(height=new_height)
             footnotes_obj = self._process_footnotes()
 
-            if footnotes_obj is not None:
-                self.pdf.page._y = self.pdf.margin['bottom'] + footnotes_height
-                self.pdf.page.x = self.x
+            if (
+                footnotes_obj is not None and
+                footnotes_obj.current_height <= footnotes_height and
+                context == self.pdf.context
+            ):
+                break
 
-                x_line = round(self.pdf.page.x, 3)
-                y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
-                self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
-                    x_line, y_line, x_line + 150, y_line
-                ))
-                self.pdf._content(footnotes_obj, height=self.height)
+        self.pdf._add_graphics([*self.section.fills,*self.section.lines])
+        self.pdf._add_parts(self.section.parts)
+        self.pdf.page._y -= self.section.current_height
+
+        if footnotes_obj is not None:
+            self.pdf.page._y = self.pdf.margin['bottom'] + footnotes_height
+            self.pdf.page.x = self.x
+
+            x_line = round(self.pdf.page.x, 3)
+            y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
+            self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
+                x_line, y_line, x_line + 150, y_line
+            ))
+            self.pdf._content(footnotes_obj, height=self.height)
 
     def _check_footnote(self, ids: dict, page_footnotes: list) -> None:
         """Method that extract the footnotes from the ids passed as argument,
-- 
2.43.0


From 8a6aae645b41bf6438461e59295ce7bd273b5d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 34/58] fix: a paragraph set back to its start has its first
 line again

---
 pdfme/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 8a01a6c..ad81106 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -551,6 +551,7 @@ class PDFTextBase:
         """
         self.last_part = last_part
         self.last_word = last_word
+        self.is_first_line = not last_part and not last_word
 
     def setup(
         self, x: Number=None, y:Number=None, width: Number=None,
-- 
2.43.0


From 52bd34379cff1b9c7aab00b0967b1d7bdbd200c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 35/58] fix: the font of a list marker is among the fonts of
 its rectangle

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index ad81106..71a6361 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -606,6 +606,8 @@ class PDFTextBase:
         self.current_height = 0
         self.lines = []
 
+        if self.is_first_line:
+            self.list_setup_done = False
         line_width = self.width - (self.indent if self.is_first_line else 0)
         if self.list_setup_done:
             line_width -= self.list_indent
-- 
2.43.0


From 779617d951ae92734d5bfc31887182599540452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 36/58] fix: whether the first row was added is part of the
 state of a table

---
 pdfme/table.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index c25d9cc..c495966 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -228,10 +228,15 @@ class PDFTable:
             dict: a dict with the state of this table.
         """
         return {
-            'current_index': self.current_index, 'delayed': copy(self.delayed)
+            'current_index': self.current_index,
+            'delayed': copy(self.delayed),
+            'first_row': self.first_row
         }
 
-    def set_state(self, current_index: int=None, delayed: dict=None) -> None:
+    def set_state(
+        self, current_index: int=None, delayed: dict=None,
+        first_row: bool=None
+    ) -> None:
         """Method to set the state of this table.
         
         The arguments of this method define the current state of this table,
@@ -242,11 +247,14 @@ class PDFTable:
                 added.
             delayed (dict, optional): a dict with delayed cells that should be
                 added before the next row.
+            first_row (bool, optional): whether no row has been added yet.
         """
         if current_index is not None:
             self.current_index = current_index
         if delayed is not None:
             self.delayed = copy(delayed)
+        if first_row is not None:
+            self.first_row = first_row
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From dd041a9ac489b7205ec33988446a78bf0424e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 37/58] fix: a table without rows or columns prints nothing

---
 pdfme/table.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index c495966..d7dc741 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -169,11 +169,11 @@ class PDFTable:
         self.fonts = fonts
         self.pdf = pdf
         self.finished = False
-        if len(content) == 0 or len(content[0]) == 0:
-            return
-
-        self.cols_count = len(content[0])
         self.delayed = {}
+        self.first_row = True
+        self.cols_count = len(content[0]) if len(content) > 0 else 0
+        if self.cols_count == 0:
+            return
 
         if widths is not None:
             if not isinstance(widths, (list, tuple)):
@@ -195,7 +195,6 @@ class PDFTable:
         self.set_default_border()
         self.setup_borders([] if borders is None else borders)
         self.setup_fills([] if fills is None else fills)
-        self.first_row = True
 
     def setup(
         self, x: Number=None, y: Number=None,
@@ -481,6 +480,10 @@ class PDFTable:
         ]
         self.current_height = 0
 
+        if self.cols_count == 0:
+            self.finished = True
+            return
+
         can_continue = True
         if len(self.delayed) > 0:
             can_continue = False
-- 
2.43.0


From 571b44d72e9c8d15b54e2abf9e5a631e8e302f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 38/58] fix: printing a paragraph does not write its style in
 the object passed

---
 pdfme/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 393d563..a03c7ac 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -510,7 +510,7 @@ class PDF:
             if len(style_str) > 0:
                 style.update(parse_style_str(style_str[0], self.fonts))
             style.update(process_style(content.get('style'), self))
-            content['style'] = style
+            content = {**content, 'style': style}
         return content
 
     def _position_and_size(
-- 
2.43.0


From 556c4ba177fd1f10209437b082ed4f85aacb8e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 39/58] fix: elements of boxes and cells used more than once
 keep their own style

---
 pdfme/content.py | 2 +-
 pdfme/table.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 09f3cdb..fe6a58c 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -862,7 +862,7 @@ class PDFContentPart:
             par_style = {
                 v: style.get(v) for v in PARAGRAPH_PROPERTIES if v in style
             }
-            element['style'] = style.copy()
+            element = {**element, 'style': style.copy()}
             pdf_text = PDFText(
                 element, self.width, self.max_height, self.x, self.y,
                 fonts=self.p.fonts, pdf=self.p.pdf, **par_style
diff --git a/pdfme/table.py b/pdfme/table.py
index d7dc741..1ab024a 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -870,7 +870,7 @@ class PDFTable:
             par_style = {
                 v: style.get(v) for v in PARAGRAPH_PROPS if v in style
             }
-            element['style'] = style
+            element = {**element, 'style': style}
             pdf_text = PDFText(
                 element, width, height, x, y, fonts=self.fonts, pdf=self.pdf,
                 **par_style
@@ -954,7 +954,7 @@ class PDFTable:
             pdf_content.set_state(**element['state'])
             pdf_content.finished = False
         else:
-            element['style'] = style
+            element = {**element, 'style': style}
             pdf_content = PDFContent(
                 element, self.fonts, x, y, width, height, self.pdf
             )
-- 
2.43.0


From da28adeae2696df8225abeec278a16b402e4ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 40/58] fix: the tries of images and groups that do not fit are
 counted for each use

---
 pdfme/content.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index fe6a58c..d2542b7 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -941,7 +941,8 @@ class PDFContentPart:
                 })
         else:
             self.y = initial_y
-            if element.setdefault('tries', 0) >= 50:
+            tries = element.get('tries', 0)
+            if tries >= 50:
                 raise Exception(
                     'Image element could not be fitted in the document (try '
                     'adding "min_height" style property to this image for us'
@@ -949,7 +950,7 @@ class PDFContentPart:
                     ': {}'
                     .format(element)
                 )
-            element['tries'] += 1
+            element = {**element, 'tries': tries + 1}
             image_place = style.get('image_place', 'flow')
             ret['delayed'] = element
             if image_place == 'normal':
@@ -1154,12 +1155,13 @@ class PDFContentPart:
                 element, style, add_element=False, add_top_margin=i != 0
             )
             if not (isinstance(ans, dict) and ans.get('delayed') is None):
-                if group_element.setdefault('tries', 0) >= 50:
+                tries = group_element.get('tries', 0)
+                if tries >= 50:
                     raise Exception(
                         'Group element could not be fitted in the document: {}'
                         .format(group_element)
                     )
-                group_element['tries'] += 1
+                group_element = {**group_element, 'tries': tries + 1}
                 self.y = initial_y
                 self.starting = initial_starting
                 self.last_bottom = initial_last_bottom
-- 
2.43.0


From e97a6d74d09ac786467365fd21934f73bf74f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 41/58] fix: the style of a document is not written in its
 sections

---
 pdfme/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index e1af376..6324411 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -312,7 +312,7 @@ class PDFDocument:
         if section_style.get('page_numbering_reset', False):
             self.pdf.page_numbering_offset = -len(self.pdf.pages)
 
-        section['style'] = section_style
+        section = {**section, 'style': section_style}
 
         self.section = self.pdf._create_content(
             section, self.width, self.height, self.x, self.y
-- 
2.43.0


From 226e795174ac94186c5dcbf7ae5384809a19d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 42/58] fix: footnotes are numbered without changing the
 objects passed

---
 pdfme/document.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 6324411..631fa5a 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -198,32 +198,39 @@ class PDFDocument:
         self.x = self.y = self.width = self.height = 0
 
         self.footnotes = []
-        self._traverse_document_footnotes(self.sections)
+        self.sections = self._traverse_document_footnotes(self.sections)
 
         self.footnotes_margin = 10
 
     def _traverse_document_footnotes(
         self, element: Union[list, tuple, dict]
-    ) -> None:
+    ) -> Union[list, tuple, dict]:
         """Method to traverse the document sections, trying to find footnotes
         dicts, to prepare them for being processed by the inner PDF instance.
+        The elements passed are not changed.
 
         Args:
             element (list, tuple, dict): the element to be tarversed.
 
+        Returns:
+            list, tuple, dict: a copy of the element, with its footnotes
+                prepared.
+
         Raises:
             TypeError:
         """
         if isinstance(element, (list, tuple)):
-            for child in element:
-                self._traverse_document_footnotes(child)
+            children = [
+                self._traverse_document_footnotes(child) for child in element
+            ]
+            return children if isinstance(element, list) else tuple(children)
         elif isinstance(element, dict):
             if 'footnote' in element:
-                element.setdefault('ids', [])
                 name = '$footnote:' + str(len(self.footnotes))
-                element['ids'].append(name)
-                element['style'] = '$footnote'
-                element['var'] = name
+                element = {
+                    **element, 'ids': [*element.get('ids', []), name],
+                    'style': '$footnote', 'var': name
+                }
                 self.pdf.context[name] = '0'
 
                 footnote = element['footnote']
@@ -240,10 +247,14 @@ class PDFDocument:
                     )
 
                 self.footnotes.append(footnote)
+                return element
             else:
-                for value in element.values():
-                    if isinstance(value, (list, tuple, dict)):
-                        self._traverse_document_footnotes(value)
+                return {
+                    key: self._traverse_document_footnotes(value)
+                    for key, value in element.items()
+                }
+        else:
+            return element
 
     def _set_running_sections(
         self, running_sections: Iterable, page_width: 'Number',
-- 
2.43.0


From a1b7d586cd8dc60cad4882ddccc09899297f5bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 43/58] fix: text in an embedded font is encoded with the font
 it is measured and selected with

---
 pdfme/text.py | 37 +++++--------------------------------
 1 file changed, 5 insertions(+), 32 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 71a6361..e4e5b8b 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -856,24 +856,9 @@ class PDFTextBase:
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
-                    style = self.list_style
-                    font_family = style.get('f', None)
-                    if not font_family:
-                        current_line_style = self.current_line.line_parts[0].style
-                        font_family = current_line_style.get('f', None)
-
                     font = None
-                    if font_family not in STANDARD_FONTS:
-                        mode = 'n'
-                        if 'b' in style:
-                            mode = 'b'
-                        if 'i' in style:
-                            if mode == 'b':
-                                mode += 'i'
-                            else:
-                                mode = 'i'
-
-                        font = self.fonts.get_font(font_family, mode)
+                    if self.list_state.font_family not in STANDARD_FONTS:
+                        font = self.list_state.font
 
                     self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
@@ -976,21 +961,9 @@ class PDFTextBase:
             self.last_factor = tw
 
         if text != '':
-            style = part.style
-            if ((font_family := style.get('f', None)) and 
-                font_family not in STANDARD_FONTS):
-            
-                mode = 'n'
-                if 'b' in style:
-                    mode = 'b'
-                if 'i' in style:
-                    if mode == 'b':
-                        mode += 'i'
-                    else:
-                        mode = 'i'
-
-                font = part.fonts.get_font(font_family, mode)
-                stream += ' ({})Tj'.format(font.encode_text(text))
+            if part.state.font_family not in STANDARD_FONTS:
+                text = part.state.font.encode_text(''.join(part.words))
+                stream += ' ({})Tj'.format(text)
             else:
                 stream += ' ({})Tj'.format(text)
         return stream
-- 
2.43.0


From 5c3bc9a36f50c691cf23ddf093105c891f51ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 44/58] fix: all of the glyphs of an embedded font can be shown

---
 pdfme/fonts.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 68ad665..c3a56c9 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -377,7 +377,10 @@ class PDFTrueTypeFont(PDFFont):
         })
 
     def encode_text(self, text: str):
-        return ''.join(as_hex(chr(self.cids2gids[ord(c)])) for c in text)
+        codes = b''.join(
+            self.cids2gids[ord(c)].to_bytes(2, 'big') for c in text
+        )
+        return escape_string(codes.decode('latin')).replace('\r', '\\r')
 
     def compute_char_widths(self):
         glyph_set = self.glyph_set
@@ -464,4 +467,4 @@ class PDFFonts:
 
 from .parser import PDFObject
 from .base import PDFBase
-from .utils import as_hex, subs
+from .utils import escape_string, subs
-- 
2.43.0


From d7fbc0e4ee89863d2d9e6d11ec6b379bbcc9d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 45/58] fix: characters an embedded font does not have are
 shown as its missing glyph

---
 pdfme/fonts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index c3a56c9..e56790b 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -359,6 +359,7 @@ class PDFTrueTypeFont(PDFFont):
                 'Ordering': 'Identity',
                 'Supplement': 0
             },
+            'DW': self.glyph_set['.notdef'].width * self.scale,
             'W': self.compute_char_widths()
         })
 
@@ -377,8 +378,9 @@ class PDFTrueTypeFont(PDFFont):
         })
 
     def encode_text(self, text: str):
+        # characters the font does not have are shown as its .notdef glyph
         codes = b''.join(
-            self.cids2gids[ord(c)].to_bytes(2, 'big') for c in text
+            self.cids2gids.get(ord(c), 0).to_bytes(2, 'big') for c in text
         )
         return escape_string(codes.decode('latin')).replace('\r', '\\r')
 
-- 
2.43.0


From a8606e310ae3a92f31dfdc4f9c526c9e3ca7c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 46/58] fix: the widths of an embedded font are right when
 characters share a glyph

---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index e56790b..9e784d8 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -398,13 +398,12 @@ class PDFTrueTypeFont(PDFFont):
             current_glyph_id = font.getGlyphID(cmap[c])
             if not widths:
                 widths.append(current_glyph_id)
-                prev_glyph_id = current_glyph_id
             elif (current_glyph_id - prev_glyph_id) != 1:
                 widths.append(current_width_group)
                 widths.append(current_glyph_id)
                 current_width_group = []
-                prev_glyph_id = current_glyph_id
 
+            prev_glyph_id = current_glyph_id
             current_width_group.append(glyph_set[cmap[c]].width * scale)
 
         widths.append(current_width_group)
-- 
2.43.0


From f9f50dfa06adf588b26b150dd60d2cd72887ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 47/58] fix: the Unicode mapping of an embedded font has all of
 its characters

---
 pdfme/fonts.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 9e784d8..af8a708 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -46,8 +46,15 @@ def get_tounicode_cmap(cmap_mappings):
 
     mappings = []
     for (cid, gid) in cmap_mappings.items():
+        char = chr(cid).encode('UTF-16-BE', 'surrogatepass').hex()
         mappings.append(
-            f'{cmap_hex_format(hex(int(gid)))} {cmap_hex_format(hex(int(cid)))}')
+            f'{cmap_hex_format(hex(int(gid)))} {cmap_hex_format(char)}')
+
+    # a block can not have more than 100 mappings
+    blocks = []
+    for i in range(0, len(mappings), 100):
+        block = mappings[i:i + 100]
+        blocks.extend([f'{len(block)} beginbfchar', *block, 'endbfchar'])
 
     return f'''/CIDInit /ProcSet findresource begin
         12 dict begin
@@ -62,9 +69,7 @@ def get_tounicode_cmap(cmap_mappings):
         1 begincodespacerange
         <0000> <FFFF>
         endcodespacerange
-        {len(mappings)} beginbfchar
-        {'\n'.join(mappings)}
-        endbfchar
+        {'\n'.join(blocks)}
         endcmap
         CMapName currentdict /CMap defineresource pop
         end
-- 
2.43.0


From 39105ef09422ac8e0aa6cc299f706312f777b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 48/58] fix: a registered font can be used in more than one
 document

---
 pdfme/fonts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index af8a708..e5491ff 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -85,7 +85,6 @@ class PDFFont(abc.ABC):
     """
 
     registered_fonts = {}
-    loaded_fonts = []
 
     def __init__(self, ref: str) -> None:
         self._ref = ref
@@ -420,6 +419,7 @@ class PDFFonts:
     """
     def __init__(self) -> None:
         self.fonts = {}
+        self.loaded_fonts = []
         self.index = 1
         for font_family, modes in STANDARD_FONTS.items():
             self.fonts[font_family] = {}
@@ -445,11 +445,11 @@ class PDFFonts:
         else:
             font_type = (font_family, mode)
             if font_type in PDFFont.registered_fonts:
-                if font_type not in PDFFont.loaded_fonts:
+                if font_type not in self.loaded_fonts:
                     self.load_font(PDFFont.registered_fonts[font_type],
                         font_family,
                         mode)
-                    PDFFont.loaded_fonts.append(font_type)
+                    self.loaded_fonts.append(font_type)
                 family = self.fonts[font_family]
             else:
                 raise ValueError('Unknown font family requested!')
-- 
2.43.0


From a7116a1202fc351aa62e9c568d83cc949455d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 49/58] fix: text in embedded fonts is justified

---
 pdfme/text.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index e4e5b8b..52ff97f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -962,8 +962,18 @@ class PDFTextBase:
 
         if text != '':
             if part.state.font_family not in STANDARD_FONTS:
-                text = part.state.font.encode_text(''.join(part.words))
-                stream += ' ({})Tj'.format(text)
+                encode = part.state.font.encode_text
+                text = ''.join(part.words)
+                if tw == 0 or part.state.size == 0:
+                    stream += ' ({})Tj'.format(encode(text))
+                else:
+                    # Tw does not reach the two bytes codes of these fonts
+                    space = ') {} ('.format(
+                        round(-tw * 1000 / part.state.size, 3)
+                    )
+                    stream += ' [({})]TJ'.format(space.join(
+                        encode(word) for word in re.split('(?<= )', text)
+                    ))
             else:
                 stream += ' ({})Tj'.format(text)
         return stream
-- 
2.43.0


From 0eb021aa2d89613d762b33ed5e01af3cbbd57a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 50/58] fix: the name of an embedded font is its PostScript
 name

---
 pdfme/fonts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index e5491ff..34d1e16 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -278,7 +278,7 @@ class PDFTrueTypeFont(PDFFont):
         Returns:
             dict: dict representing this font's "font descriptor".
         """
-        self._base_font = self.font['name'].names[6].toStr()
+        self._base_font = self.font['name'].getDebugName(6)
         head = self.font["head"]
         self.units_per_em = head.unitsPerEm
         scale = self.scale = 1000 / self.units_per_em
@@ -311,7 +311,7 @@ class PDFTrueTypeFont(PDFFont):
             if hhea is None:
                 ascent = yMax
                 descent = yMin
-            capHeight = self.ascent
+            capHeight = ascent
 
         stemV = 50 + int(pow((usWeightClass / 65.0),2))
 
-- 
2.43.0


From ddb7925ffb7b7eda55fd6d9461f6e68992cfaf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:08 +0000
Subject: [PATCH 51/58] fix: Symbol and ZapfDingbats keep their own encoding

---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 34d1e16..3146475 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -187,8 +187,7 @@ class PDFStandardFont(PDFFont):
         font = base.add({
             'Type': b'/Font',
             'Subtype': b'/Type1',
-            'BaseFont': subs('/{}', self.base_font),
-            'Encoding': b'/WinAnsiEncoding'
+            'BaseFont': subs('/{}', self.base_font)
         })
         if self.base_font not in ['Symbol', 'ZapfDingbats']:
             font['Encoding'] = b'/WinAnsiEncoding'
-- 
2.43.0


From 532de18d3c3e1ca6efa56dd9f5b7769fa0f5d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 52/58] fix: list markers are not stretched by the justified
 text before them

---
 pdfme/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 52ff97f..eec3990 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -860,7 +860,8 @@ class PDFTextBase:
                     if self.list_state.font_family not in STANDARD_FONTS:
                         font = self.list_state.font
 
-                    self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
+                    # spaces may still be stretched by the text before
+                    self.text += ' 0 -{} Td{} 0 Tw ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
                         (font.encode_text(self.list_text) if
-- 
2.43.0


From f3219f9c9ca37b6d3e876660d9b86c57acc178ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 53/58] fix: what is inside a table or content box does not
 move the position of the page

---
 pdfme/pdf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index a03c7ac..5d7b742 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -906,13 +906,16 @@ class PDF:
         Args:
             parts (list, tuple): the iterable just explained.
         """
+        # the element these parts belong to moves the position of the page
+        x, y = self.page.x, self.page._y
         for part in parts:
             part = part.copy()
             type_ = part.pop('type')
             if type_ == 'paragraph':
-                self._add_text(**part)
+                self._add_text(**part, move=None)
             elif type_ == 'image':
-                self.add_image(**part)
+                self.add_image(**part, move=None)
+        self.page.x, self.page._y = x, y
 
     def _build_pages_tree(self, page_list:list, first_level:bool=True) -> None:
         """Method to build the PDF pages tree.
-- 
2.43.0


From f60e665386d8f848a9a39959fd8bf2a6ee2bc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 54/58] fix: images added to a page are placed below its
 position

---
 pdfme/pdf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 5d7b742..18dfc7b 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -415,9 +415,12 @@ class PDF:
         if x is not None:
             self.page.x = x
         if y is not None:
-            self.page._y = y
+            self.page.y = y
 
+        # a page places images by their bottom
+        self.page.y += height
         self.page.add_image(image_obj.id, width, height)
+        self.page.y -= height
 
         if move == 'bottom':
             self.page.y += height
@@ -914,6 +917,8 @@ class PDF:
             if type_ == 'paragraph':
                 self._add_text(**part, move=None)
             elif type_ == 'image':
+                # the y of a part is the bottom of the image, from the bottom
+                part['y'] = self.page.height - part['y'] - part['height']
                 self.add_image(**part, move=None)
         self.page.x, self.page._y = x, y
 
-- 
2.43.0


From 7ccf85bb22264f16ee568b9c20e6ed0ca88a0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:47 +0000
Subject: [PATCH 55/58] fix: texts ignore the line height and indent of the
 document

---
 pdfme/pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 18dfc7b..eb6b46a 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -558,7 +558,7 @@ class PDF:
 
     def _create_text(
         self, content: TextType, width: Number=None, height: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None
     ) -> 'PDFText':
         """Method to create a paragraph.
@@ -656,7 +656,7 @@ class PDF:
     def _text(
         self, content: Union[TextType, 'PDFText'], width: Number=None,
         height: Number=None, x: Number=None, y: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None,
         move: str='bottom'
     ) -> 'PDFText':
@@ -688,8 +688,8 @@ class PDF:
         return pdf_text
 
     def text(
-        self, content: TextType, text_align: str=None, line_height: Number=1.1,
-        indent: Number=0, list_text: str=None, list_indent: Number=None,
+        self, content: TextType, text_align: str=None, line_height: Number=None,
+        indent: Number=None, list_text: str=None, list_indent: Number=None,
         list_style: dict=None
     ) -> None:
         """Method to create and add a paragraph to this document. This method
-- 
2.43.0


From b35b44da556ff255af98f759ac2a0bae2e827a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:41 +0000
Subject: [PATCH 56/58] fix: rows in which every cell spans more rows were lost
 on the first page or drawn with no height

When such a row was the first of a table it was taken as a row in which
nothing fitted, and what had been printed of it was thrown away. When all
of its cells continued on the next page its height was 0, so borders and
fills did not contain the text and what followed was drawn over it.
---
 pdfme/table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 1ab024a..775f300 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -559,12 +559,17 @@ class PDFTable:
 
         if self.first_row:
             self.first_row = False
-            if self.max_height == 0:
+            if max([self.max_height, *self.heights_mem.values()]) == 0:
                 return 'cancel'
 
         ret = True
         if sum(v['colspan'] for v in self.delayed.values()) == self.cols_count:
             ret = False
+            # this is the last row of this rectangle, so the cells that span
+            # more rows end here
+            self.max_height = max(
+                [self.max_height, *self.heights_mem.values()]
+            )
         for col in self.delayed:
             if not col in self.rowspan:
                 ret = False
-- 
2.43.0


From e189b5c165abdbfa47071cf6869b7042336e3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:18 +0000
Subject: [PATCH 57/58] fix: the fill given by position for a cell that spans
 rows was missing where the cell continued on the next page

---
 pdfme/table.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 775f300..00ed138 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -730,7 +730,8 @@ class PDFTable:
         return element, style, cell_style
 
     def _setup_cell_fill(
-        self, col: int, cell_style: dict, width: Number, rowspan: int
+        self, col: int, cell_style: dict, width: Number, rowspan: int,
+        row: int
     ) -> None:
         """Method to optionally add the fill color in ``cell`style`` to
         attribute ``fills_mem``
@@ -740,13 +741,12 @@ class PDFTable:
             cell_style (dict): the cell style.
             width (Number): the width of the cell.
             rowspan (int): the rowspan of the cell.
+            row (int): the index of the row where the cell starts.
         """
         fill_color = cell_style.get('cell_fill', None)
 
         if fill_color is None:
-            fill_color = (
-                self.fills_defs.get(self.current_index, {}).get(col, None)
-            )
+            fill_color = self.fills_defs.get(row, {}).get(col, None)
 
         if fill_color is None:
             fill_color = self.style.get('cell_fill', None)
@@ -805,7 +805,9 @@ class PDFTable:
             'rowspan': element.get('rowspan', 1), 'row': row_added
         }
 
-        self._setup_cell_fill(col, cell_style, width + padd_x, rowspan)
+        self._setup_cell_fill(
+            col, cell_style, width + padd_x, rowspan, row_added
+        )
 
         keys = [key for key in element.keys() if key.startswith('.')]
 
-- 
2.43.0


From 6784017de135d9575a40d17a1188487bca620810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:01 +0000
Subject: [PATCH 58/58] fix: titles of outlines and labels with characters
 outside Latin-1 raised an error, and titles with some of Latin-1 were read as
 others

---
 pdfme/page.py  |  5 +++--
 pdfme/pdf.py   | 12 ++++++------
 pdfme/utils.py | 17 +++++++++++++++++
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/pdfme/page.py b/pdfme/page.py
index cd83736..d9cfe2e 100644
--- a/pdfme/page.py
+++ b/pdfme/page.py
@@ -143,7 +143,7 @@ class PDFPage:
             rect (list): a list with the following information about the
                 annotation: [x, y, width, height].
         """
-        self.add_annot({'Dest': dest}, rect)
+        self.add_annot({'Dest': text_string(dest, 256)}, rect)
 
     def add_image(
         self, image_obj_id: 'PDFRef', width: Number, height: Number
@@ -172,4 +172,5 @@ class PDFPage:
         )
 
 from .base import PDFBase
-from .parser import PDFRef
\ No newline at end of file
+from .parser import PDFRef
+from .utils import text_string
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index eb6b46a..96d8f25 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1009,11 +1009,11 @@ class PDF:
     def _build_dests(self) -> None:
         """Method to create and add the dests tree to the document.
         """
-        dests = list(self.dests.keys())
+        dests = {text_string(k, 256): v for k, v in self.dests.items()}
         if len(dests) == 0:
             return
-        dests.sort()
-        self._build_dests_tree(dests, [self.dests[k] for k in dests])
+        keys = sorted(dests)
+        self._build_dests_tree(keys, [dests[k] for k in keys])
 
     def _build_outlines_tree(
         self, outlines: list, parent: 'PDFObject', level: int
@@ -1032,9 +1032,9 @@ class PDF:
             count += 1
 
             obj = self.base.add({
-                'Title': outline['text'],
+                'Title': text_string(outline['text']),
                 'Parent': parent.id,
-                'Dest': outline['label']
+                'Dest': text_string(outline['label'], 256)
             })
 
             if prev is not None:
@@ -1097,5 +1097,5 @@ from .table import PDFTable
 from .text import PDFText
 from .utils import (
     create_graphics, get_page_size, get_paragraph_stream, parse_margin,
-    parse_style_str, process_style, to_roman, copy
+    parse_style_str, process_style, text_string, to_roman, copy
 )
diff --git a/pdfme/utils.py b/pdfme/utils.py
index eeb5be9..f578c7d 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -432,6 +432,23 @@ def as_hex(text: str) -> str:
     """
     return escape_string(text.encode('UTF-16-BE').decode('latin'))
 
+def text_string(text: str, limit: int=128) -> str:
+    """Takes a text and returns the string to write it in a PDF file: the text
+    itself, or if it has characters from number ``limit`` on, its UTF-16 Big
+    Endian representation after a byte order mark.
+
+    Args:
+        text (str): Input text.
+        limit (int, optional): the number of the first character that can't be
+            written as it is.
+
+    Returns:
+        str: The transformed text.
+    """
+    if all(ord(char) < limit for char in text):
+        return text
+    return ('\ufeff' + text).encode('UTF-16-BE').decode('latin')
+
 def escape_string(text):
     '''Takes in a text and returns all special characters escaped.
 
-- 
2.43.0

