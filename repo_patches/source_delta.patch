From d42c3d56b6138ed44465b4027c28ab76e84ee078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:04 +0000
Subject: [PATCH 01/55] fix: convert MicroDVD frames to microseconds in exact
 arithmetic

---
 pycaption/microdvd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index 6c31ca1..e8700c7 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 
 from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -21,7 +22,7 @@ class MicroDVDReader(BaseReader):
 
         lines = content.splitlines()
         captions = CaptionList()
-        fps = 25.0
+        fps = Fraction(25)
         for line in lines:
             if not line:
                 continue
@@ -35,7 +36,7 @@ class MicroDVDReader(BaseReader):
 
             if start == '0' and end == '0':
                 try:
-                    fps = float(txt)
+                    fps = Fraction(txt)
                     continue
                 except ValueError:
                     raise CaptionReadTimingError(
@@ -66,8 +67,9 @@ class MicroDVDReader(BaseReader):
 
         return caption_set
 
-    def _framestomicro(self, framenum, fps=25.0):
-        return int(framenum / fps * (10 ** 6))
+    def _framestomicro(self, framenum, fps=25):
+        # exact arithmetic: floats would lose the last microsecond
+        return int(framenum * 10 ** 6 / Fraction(fps))
 
 
 class MicroDVDWriter(BaseWriter):
-- 
2.43.0


From 224f4fc4fa6b36fe5466aaf0602b82df55b52c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:19 +0000
Subject: [PATCH 02/55] fix: read SRT second fractions of any length

---
 pycaption/srt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 3351bad..9d93897 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -60,10 +60,12 @@ class SRTReader(BaseReader):
         if ',' not in timesplit[2]:
             timesplit[2] += ',000'
         secsplit = timesplit[2].split(',')
+        # the fraction may have any number of digits
+        fraction = f'{secsplit[1].strip():0<6.6}'
         microseconds = (int(timesplit[0]) * 3600000000
                         + int(timesplit[1]) * 60000000
                         + int(secsplit[0]) * 1000000
-                        + int(secsplit[1]) * 1000)
+                        + int(fraction))
 
         return microseconds
 
-- 
2.43.0


From 081adf7fc056f51a24e646e1fb5185d7111fb0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 03/55] fix: a blank line ends a WebVTT cue even if the cue has
 no text

---
 pycaption/webvtt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index c3573b2..03141cc 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -92,8 +92,8 @@ class WebVTTReader(BaseReader):
                     raise type(e)(new_msg).with_traceback(tb) from None
 
             elif "" == line:
-                if found_timing and nodes:
-                    found_timing = False
+                found_timing = False
+                if nodes:
                     caption = Caption(start, end, nodes, layout_info=layout_info)
                     captions.append(caption)
                     nodes = []
-- 
2.43.0


From 7e9486efb6c82b9b07c97e677922cefa6bd5fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:10 +0000
Subject: [PATCH 04/55] fix: every caption of the last SAMI sync gets an end
 time

---
 pycaption/sami.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index b310bbc..9467585 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -230,9 +230,12 @@ class SAMIReader(BaseReader):
                 caption = Caption(start, end, self.line, styles, caption_layout)
                 captions.append(caption)
 
-        if captions and captions[-1].end == 0:
-            # Arbitrarily make this last 4 seconds. Not ideal...
-            captions[-1].end = (milliseconds + 4000) * 1000
+        # Arbitrarily make the captions of the last sync last 4 seconds. Not
+        # ideal...
+        for caption in reversed(captions):
+            if caption.end != 0:
+                break
+            caption.end = (milliseconds + 4000) * 1000
 
         return captions
 
-- 
2.43.0


From 9ca2cc9377bc715bd056f9b43aafce6423cc3692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:24 +0000
Subject: [PATCH 05/55] fix: convert TTML time expressions in exact arithmetic

---
 pycaption/dfxp/base.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index bef0586..5c41f8d 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
@@ -160,16 +161,19 @@ class DFXPReader(BaseReader):
             raise CaptionReadTimingError(
                 f'Missing end time or duration on line {p_tag}.')
 
-        start = self._convert_timestamp_to_microseconds(begin)
+        start = self._convert_timestamp_to_exact_microseconds(begin)
         if end:
-            end = self._convert_timestamp_to_microseconds(p_tag['end'])
+            end = self._convert_timestamp_to_exact_microseconds(p_tag['end'])
         else:
-            dur = self._convert_timestamp_to_microseconds(p_tag['dur'])
+            dur = self._convert_timestamp_to_exact_microseconds(p_tag['dur'])
             end = start + dur
 
-        return start, end
+        return int(start), int(end)
 
     def _convert_timestamp_to_microseconds(self, stamp):
+        return int(self._convert_timestamp_to_exact_microseconds(stamp))
+
+    def _convert_timestamp_to_exact_microseconds(self, stamp):
         match = TIME_EXPRESSION_PATTERN.search(stamp)
         if not match:
             raise CaptionReadTimingError(
@@ -189,16 +193,18 @@ class DFXPReader(BaseReader):
         microseconds += int(clock_time_match.group('seconds')) * \
                         MICROSECONDS_PER_UNIT["seconds"]
         if clock_time_match.group('sub_frames'):
-            microseconds += int(clock_time_match.group('sub_frames').ljust(
-                3, '0')) * MICROSECONDS_PER_UNIT["milliseconds"]
+            microseconds += Fraction(
+                f"0.{clock_time_match.group('sub_frames')}"
+            ) * MICROSECONDS_PER_UNIT["seconds"]
         elif clock_time_match.group('frames'):
-            microseconds += int(clock_time_match.group('frames')) / 30 * \
-                            MICROSECONDS_PER_UNIT["seconds"]
-        return int(microseconds)
+            microseconds += Fraction(
+                int(clock_time_match.group('frames')), 30
+            ) * MICROSECONDS_PER_UNIT["seconds"]
+        return microseconds
 
     @staticmethod
     def _convert_time_count_to_microseconds(time_count_match):
-        value = float(time_count_match.group('time_count'))
+        value = Fraction(time_count_match.group('time_count'))
         metric = time_count_match.group("metric")
         if metric == "h":
             microseconds = value * MICROSECONDS_PER_UNIT["hours"]
@@ -213,7 +219,7 @@ class DFXPReader(BaseReader):
         elif metric == "t":
             raise NotImplementedError("The tick metric for time count is "
                                       "not currently implemented.")
-        return int(microseconds)
+        return microseconds
 
     def _convert_tag_to_node(self, tag):
         # convert text
-- 
2.43.0


From 4ae57468e11c8d2a7c0e7fc163372ee84b5d4653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:12 +0000
Subject: [PATCH 06/55] fix: separate the WebVTT cues of one caption by a blank
 line

---
 pycaption/webvtt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 03141cc..2b812ca 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -290,6 +290,9 @@ class WebVTTWriter(BaseWriter):
             if not layout:
                 layout = caption.layout_info or self.global_layout
             cue_settings = self._convert_positioning(layout)
+            if output:
+                # cues are separated by a blank line
+                output += "\n"
             output += timespan + cue_settings + "\n"
             output += cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
 
-- 
2.43.0


From 4df1e0aaff08e965aee23c6cfa0aee76dddd6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:14 +0000
Subject: [PATCH 07/55] fix: SAMI sync starts are integers even if caption
 times are not

---
 pycaption/sami.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 9467585..3fb1e4e 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -440,13 +440,13 @@ class SAMIWriter(BaseWriter):
 
         :rtype: BeautifulSoup
         """
-        time = caption.start // 1000
+        time = int(caption.start // 1000)
 
         if self.last_time and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-        self.last_time = caption.end // 1000
+        self.last_time = int(caption.end // 1000)
 
         sami, sync = self._recreate_sync(sami, lang, primary, time)
 
-- 
2.43.0


From 7b1ec28e1e21494faae16f7f7b916c4530aa99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:16 +0000
Subject: [PATCH 08/55] fix: blank SAMI sync for a caption that ends within the
 first millisecond

---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 3fb1e4e..8e38108 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -442,7 +442,7 @@ class SAMIWriter(BaseWriter):
         """
         time = int(caption.start // 1000)
 
-        if self.last_time and time != self.last_time:
+        if self.last_time is not None and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-- 
2.43.0


From 4db0ce7703169efce13d304a3f22bc402d720ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:17 +0000
Subject: [PATCH 09/55] fix: keep SAMI cues of a secondary language when the
 first one has none

---
 pycaption/sami.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 8e38108..56fbd75 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -500,6 +500,8 @@ class SAMIWriter(BaseWriter):
             if later:
                 last_sync = later[0]
                 last_sync.insert_before(sync)
+            else:
+                sami.body.append(sync)
         return sami, sync
 
     def _recreate_blank_tag(self, sami, caption, lang, primary, captions):
-- 
2.43.0


From e7e81676961ed37c8c53154afd344bcd696b2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:23 +0000
Subject: [PATCH 10/55] fix: blank lines inside a caption do not end the SRT
 cue

---
 pycaption/srt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 9d93897..6f04993 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -135,8 +135,10 @@ class SRTWriter(BaseWriter):
             for node in caption.nodes:
                 new_content = self._recreate_line(new_content, node)
 
-            # Eliminate excessive line breaks
-            new_content = new_content.strip()
+            # Eliminate excessive line breaks: a blank line ends the cue
+            new_content = '\n'.join(
+                line.strip() for line in new_content.split('\n')
+                if line.strip())
 
             srt += f"{new_content}\n\n"
             count += 1
-- 
2.43.0


From 5d545f69a61f96994e94a247159eb1f1d9227337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:38 +0000
Subject: [PATCH 11/55] fix: writers add no blanks at text node and span
 boundaries inside a line (SRT, DFXP)

---
 pycaption/dfxp/base.py   | 4 ++--
 pycaption/dfxp/extras.py | 6 +++---
 pycaption/srt.py         | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 5c41f8d..fccecd6 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -490,12 +490,12 @@ class DFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 70a60c8..2226f0a 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -195,7 +195,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += escape(node.content) + ' '
+                line += escape(node.content)
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
@@ -215,12 +215,12 @@ class LegacyDFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
diff --git a/pycaption/srt.py b/pycaption/srt.py
index 6f04993..ad093d1 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -147,7 +147,7 @@ class SRTWriter(BaseWriter):
 
     def _recreate_line(self, srt, line):
         if line.type_ == CaptionNode.TEXT:
-            return srt + f'{line.content} '
+            return srt + line.content
         elif line.type_ == CaptionNode.BREAK:
             return srt + '\n'
         else:
-- 
2.43.0


From 98ec6638de03312a43adebe73917c37670f0c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:06 +0000
Subject: [PATCH 12/55] fix: escape WebVTT arrows that span several text nodes

---
 pycaption/webvtt.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 2b812ca..e03b2c0 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -410,7 +410,7 @@ class WebVTTWriter(BaseWriter):
                 if s and current_layout and node.layout_info != current_layout:
                     # If the positioning changes from one text node to
                     # another, a new WebVTT cue has to be created.
-                    layout_groups.append((s, current_layout))
+                    layout_groups.append((self._encode_arrows(s), current_layout))
                     s = ""
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
@@ -443,9 +443,18 @@ class WebVTTWriter(BaseWriter):
                 s += "\n"
 
         if s:
-            layout_groups.append((s, current_layout))
+            layout_groups.append((self._encode_arrows(s), current_layout))
         return layout_groups
 
+    @staticmethod
+    def _encode_arrows(s):
+        """
+        Escape the arrows that only appear once the (already encoded) contents
+        of consecutive text nodes are joined.
+        :type s: str
+        """
+        return s.replace("-->", "--&gt;")
+
     def _encode_illegal_characters(self, s):
         """
         Convert cue text from plain unicode to WebVTT XML-like format
-- 
2.43.0


From 4273d3b29132d17faf04094f3fc5ec0546803d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:40 +0000
Subject: [PATCH 13/55] fix: no WebVTT non-breaking space for an empty text
 node inside a line

---
 pycaption/webvtt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index e03b2c0..45fa6b4 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -414,7 +414,11 @@ class WebVTTWriter(BaseWriter):
                     s = ""
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
-                s += self._encode_illegal_characters(node.content) or "&nbsp;"
+                if node.content:
+                    s += self._encode_illegal_characters(node.content)
+                elif not s or s.endswith("\n"):
+                    # a blank line would end the cue
+                    s += "&nbsp;"
                 current_layout = node.layout_info
             elif node.type_ == CaptionNode.STYLE:
                 resulting_style = self._calculate_resulting_style(
-- 
2.43.0


From 06db49ab819b0bdf721527e7f28f5c42f6b60df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 14/55] fix: DFXP and SAMI readers keep the words of text
 wrapped over source lines

---
 pycaption/dfxp/base.py | 35 +++++++++++++++++++++++------------
 pycaption/sami.py      | 11 ++++++-----
 pycaption/utils.py     | 38 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 67 insertions(+), 17 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index fccecd6..559c49a 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -3,7 +3,8 @@ from copy import deepcopy
 from fractions import Fraction
 from xml.sax.saxutils import escape
 
-from bs4 import BeautifulSoup, NavigableString
+from bs4 import BeautifulSoup, CData, NavigableString
+from bs4.element import PreformattedString
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -17,7 +18,7 @@ from ..geometry import (
     Point, Stretch, UnitEnum, Padding, VerticalAlignmentEnum,
     HorizontalAlignmentEnum, Alignment, Layout,
 )
-from ..utils import is_leaf
+from ..utils import TextUnwrapper, is_leaf
 
 __all__ = [
     'DFXP_BASE_MARKUP', 'DFXP_DEFAULT_STYLE', 'DFXP_DEFAULT_STYLE_ID',
@@ -82,6 +83,8 @@ class DFXPReader(BaseReader):
         self.read_invalid_positioning = (
             kw.get('read_invalid_positioning', False))
         self.nodes = []
+        self.unwrapper = TextUnwrapper()
+        self.text_layout = None
 
     def detect(self, content):
         if '</tt>' in content.lower():
@@ -140,6 +143,8 @@ class DFXPReader(BaseReader):
     def _convert_p_tag_to_caption(self, p_tag):
         start, end = self._find_and_convert_times(p_tag)
         self.nodes = []
+        self.unwrapper.end_line()
+        self.text_layout = None
         self._convert_tag_to_node(p_tag)
         styles = self._convert_style(p_tag)
 
@@ -223,22 +228,28 @@ class DFXPReader(BaseReader):
 
     def _convert_tag_to_node(self, tag):
         # convert text
+        if isinstance(tag, PreformattedString) and not isinstance(tag, CData):
+            # comments and processing instructions are not displayed
+            return
         if isinstance(tag, NavigableString):
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if result:
-                # Escaping/unescaping xml entities is the responsibility of the
-                # xml parser used by BeautifulSoup in its initialization. The
-                # content of the tag variable at this point should be a plain
-                # unicode string with xml entities already converted to unicode
-                # characters.
-                tag_text = result.groups()[0]
+            # Escaping/unescaping xml entities is the responsibility of the
+            # xml parser used by BeautifulSoup in its initialization. The
+            # content of the tag variable at this point should be a plain
+            # unicode string with xml entities already converted to unicode
+            # characters.
+            if tag.strip():
+                if tag.layout_info != self.text_layout:
+                    # text in another region is not on the same line
+                    self.unwrapper.end_line()
+                self.text_layout = tag.layout_info
+            tag_text = self.unwrapper.unwrap(tag)
+            if tag_text:
                 node = CaptionNode.create_text(
                     tag_text, layout_info=tag.layout_info)
                 self.nodes.append(node)
         # convert line breaks
         elif tag.name == 'br':
+            self.unwrapper.end_line()
             self.nodes.append(
                 CaptionNode.create_break(layout_info=tag.layout_info))
         # convert italics
diff --git a/pycaption/sami.py b/pycaption/sami.py
index 56fbd75..fc6f398 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -56,6 +56,7 @@ from .exceptions import (
     CaptionReadTimingError
 )
 from .geometry import Layout, Alignment, Padding, Size
+from .utils import TextUnwrapper
 
 # change cssutils default logging
 log.setLevel(FATAL)
@@ -74,6 +75,7 @@ class SAMIReader(BaseReader):
         super().__init__(*args, **kw)
         self.line = []
         self.first_alignment = None
+        self.unwrapper = TextUnwrapper()
 
     def detect(self, content):
         if '<sami' in content.lower():
@@ -214,6 +216,7 @@ class SAMIReader(BaseReader):
                 layout_info = self._build_layout(styles,
                                                  inherit_from=parent_layout)
                 self.line = []
+                self.unwrapper.end_line()
 
                 self._translate_tag(p, layout_info)
                 caption_layout = self._get_layout_class()(
@@ -257,15 +260,13 @@ class SAMIReader(BaseReader):
             # BeautifulSoup apparently handles unescaping character codes
             # (e.g. &amp;) automatically. The following variable, therefore,
             # should contain a plain unicode string.
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if not result:
+            tag_text = self.unwrapper.unwrap(tag)
+            if not tag_text:
                 return
-            tag_text = result.groups()[0]
             self.line.append(CaptionNode.create_text(tag_text, inherit_from))
         # convert line breaks
         elif tag.name == 'br':
+            self.unwrapper.end_line()
             self.line.append(CaptionNode.create_break(inherit_from))
         # convert italics, bold, and underline
         elif tag.name == 'i' or tag.name == 'b' or tag.name == 'u':
diff --git a/pycaption/utils.py b/pycaption/utils.py
index e8ff6fb..b2f5c3c 100644
--- a/pycaption/utils.py
+++ b/pycaption/utils.py
@@ -1,3 +1,6 @@
+import re
+
+
 def is_leaf(element):
     """
     Return True if the element is a leaf, False otherwise. The element is
@@ -8,3 +11,38 @@ def is_leaf(element):
     if not name or name == 'br':
         return True
     return False
+
+
+class TextUnwrapper:
+    """
+    Joins the text of a caption that is wrapped over several source lines: a
+    line end and the indentation around it stand for one blank between words,
+    and for nothing at the start and at the end of a displayed line. Next to
+    a tag they stand for nothing in front of a punctuation mark, either.
+    """
+    _wrap = re.compile('[ \t]*[\r\n][ \t\r\n]*')
+
+    def __init__(self):
+        self.end_line()
+
+    def end_line(self):
+        """To be called at every line break, and at the end of a caption"""
+        self._last_char = ' '
+        self._pending_blank = False
+
+    def unwrap(self, text):
+        """
+        :param text: The content of the next text element of the caption
+        :returns: The text to be displayed; empty if there is none
+        """
+        parts = self._wrap.split(text)
+        unwrapped = ' '.join(part for part in parts if part)
+        if len(parts) > 1 and not parts[0]:
+            self._pending_blank = True
+        if unwrapped:
+            if (self._pending_blank and not self._last_char.isspace()
+                    and unwrapped[0] not in ' ,.;:!?'):
+                unwrapped = f' {unwrapped}'
+            self._pending_blank = not parts[-1]
+            self._last_char = unwrapped[-1]
+        return unwrapped
-- 
2.43.0


From 6eb0695b9d2980dbb89247f85aa227d0b93fce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:39 +0000
Subject: [PATCH 15/55] fix: SAMI reader decodes character and entity
 references exactly once

---
 pycaption/sami.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index fc6f398..a9bc49f 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -39,6 +39,7 @@ import re
 from xml.dom import SyntaxErr
 from collections import deque
 from copy import deepcopy
+from html import unescape
 from html.entities import name2codepoint
 from html.parser import HTMLParser
 from logging import FATAL
@@ -705,26 +706,24 @@ class SAMIParser(HTMLParser):
             closing_tag = self.queue.pop()
             self.sami += f"</{closing_tag}>"
 
+    # The markup assembled by the handlers is parsed again: what is decoded
+    # here has to be escaped
+
     def handle_entityref(self, name):
-        if name in ['gt', 'lt']:
-            self.sami += f'&{name};'
-        else:
-            try:
-                self.sami += chr(self.name2codepoint[name])
-            except (KeyError, ValueError):
-                self.sami += f'&{name}'
+        try:
+            self.sami += escape(chr(self.name2codepoint[name]))
+        except KeyError:
+            self.sami += escape(f'&{name}')
 
         self.last_element = ''
 
     def handle_charref(self, name):
-        if name[0] == 'x':
-            self.sami += chr(int(name[1:], 16))
-        else:
-            self.sami += chr(int(name))
+        self.sami += escape(unescape(f'&#{name};'))
+        self.last_element = ''
 
     # override the parser's handling of data
     def handle_data(self, data):
-        self.sami += data
+        self.sami += escape(data)
         self.last_element = ''
 
     # override the parser's feed function
@@ -754,7 +753,7 @@ class SAMIParser(HTMLParser):
         data = data.replace('<i/>', '<i>')
 
         # fix awkward tags found in some SAMIs
-        data = data.replace(';>', '>')
+        data = re.sub('(<[^<>]*);>', r'\1>', data)
         HTMLParser.feed(self, data)
 
         # close any tags that remain in the queue
-- 
2.43.0


From b37cdc16c74566efc1acb784a53862314b7fde47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:59 +0000
Subject: [PATCH 16/55] fix: WebVTT reader decodes all character references and
 strips known tags only

---
 pycaption/webvtt.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 45fa6b4..c0b11bf 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -2,6 +2,7 @@ import datetime
 import re
 import sys
 from copy import deepcopy
+from html import unescape
 
 from .base import BaseReader, BaseWriter, Caption, CaptionList, CaptionNode, CaptionSet
 from .exceptions import (
@@ -17,9 +18,9 @@ from .geometry import HorizontalAlignmentEnum, Layout
 # The following pattern captures [start], [end] and [cue settings] if existent
 TIMING_LINE_PATTERN = re.compile(r"^(\S+)\s+-->\s+(\S+)(?:\s+(.*?))?\s*$")
 TIMESTAMP_PATTERN = re.compile(r"^(\d+):(\d{2})(:\d{2})?\.(\d{3})")
-VOICE_SPAN_PATTERN = re.compile("<v(\\.\\w+)* ([^>]*)>")
+VOICE_SPAN_PATTERN = re.compile(r"<v(\.[^\s.>]+)*[ \t]([^>]*)>")
 OTHER_SPAN_PATTERN = re.compile(
-    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3})).*?>"
+    r"</?(([cibuv]|ruby|rt|lang)(?=[\s.>])|(\d+):(\d{2})(:\d{2})?\.(\d{3})).*?>"
 )  # These WebVTT tags are stripped off the cues on conversion
 
 WEBVTT_VERSION_OF = {
@@ -180,14 +181,8 @@ class WebVTTReader(BaseReader):
         # TODO: Add support for other WebVTT tags. For now just strip them
         # off the text.
         s = OTHER_SPAN_PATTERN.sub("", s)
-        # Replace WebVTT special XML codes with plain unicode values
-        s = s.replace("&lt;", "<")
-        s = s.replace("&gt;", ">")
-        s = s.replace("&lrm;", "\u200e")
-        s = s.replace("&rlm;", "\u200f")
-        s = s.replace("&nbsp;", "\u00a0")
-        # Must do ampersand last
-        s = s.replace("&amp;", "&")
+        # Replace character references with plain unicode values
+        s = unescape(s)
         return s
 
 
-- 
2.43.0


From 2d7a2d4f1604d8048a13c5c3acce120ba690b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 17/55] fix: labels of ten SCC preambles (column 24, green) so
 that they end italics

---
 pycaption/scc/constants.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index e8a9f39..1e9023b 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -1134,6 +1134,7 @@ COMMAND_LABELS = {
     "9179": "row 02, column 16, with white underlined text.",
     "917a": "row 02, column 20, with plain white text.",
     "91fb": "row 02, column 20, with white underlined text.",
+    "917c": "row 02, column 24, with plain white text.",
     "91fc": "row 02, column 24, with plain white text.",
     "91fd": "row 02, column 24, with white underlined text.",
     "91fe": "row 02, column 28, with plain white text.",
@@ -1198,6 +1199,7 @@ COMMAND_LABELS = {
     "9279": "row 04, column 16, with white underlined text.",
     "927a": "row 04, column 20, with plain white text.",
     "92fb": "row 04, column 20, with white underlined text.",
+    "927c": "row 04, column 24, with plain white text.",
     "92fc": "row 04, column 24, with plain white text.",
     "92fd": "row 04, column 24, with white underlined text.",
     "92fe": "row 04, column 28, with plain white text.",
@@ -1236,7 +1238,7 @@ COMMAND_LABELS = {
     "15df": "row 05, column 28, with white underlined text.",
     "15e0": "row 06, column 00, with plain white text.",
     "1561": "row 06, column 00, with white underlined text.",
-    "15462": "row 06, column 00, with plain green text.",
+    "1562": "row 06, column 00, with plain green text.",
     "15e3": "row 06, column 00, with green underlined text.",
     "1564": "row 06, column 00, with plain blue text.",
     "15e5": "row 06, column 00, with blue underlined text.",
@@ -1262,6 +1264,7 @@ COMMAND_LABELS = {
     "1579": "row 06, column 16, with white underlined text.",
     "157a": "row 06, column 20, with plain white text.",
     "15fb": "row 06, column 20, with white underlined text.",
+    "157c": "row 06, column 24, with plain white text.",
     "15fc": "row 06, column 24, with plain white text.",
     "15fd": "row 06, column 24, with white underlined text.",
     "15fe": "row 06, column 28, with plain white text.",
@@ -1300,7 +1303,7 @@ COMMAND_LABELS = {
     "16df": "row 07, column 28, with white underlined text.",
     "16e0": "row 08, column 00, with plain white text.",
     "1661": "row 08, column 00, with white underlined text.",
-    "16462": "row 08, column 00, with plain green text.",
+    "1662": "row 08, column 00, with plain green text.",
     "16e3": "row 08, column 00, with green underlined text.",
     "1664": "row 08, column 00, with plain blue text.",
     "16e5": "row 08, column 00, with blue underlined text.",
@@ -1326,6 +1329,7 @@ COMMAND_LABELS = {
     "1679": "row 08, column 16, with white underlined text.",
     "167a": "row 08, column 20, with plain white text.",
     "16fb": "row 08, column 20, with white underlined text.",
+    "167c": "row 08, column 24, with plain white text.",
     "16fc": "row 08, column 24, with plain white text.",
     "16fd": "row 08, column 24, with white underlined text.",
     "16fe": "row 08, column 28, with plain white text.",
@@ -1390,6 +1394,7 @@ COMMAND_LABELS = {
     "9779": "row 10, column 16, with white underlined text.",
     "977a": "row 10, column 20, with plain white text.",
     "97fb": "row 10, column 20, with white underlined text.",
+    "977c": "row 10, column 24, with plain white text.",
     "97fc": "row 10, column 24, with plain white text.",
     "97fd": "row 10, column 24, with white underlined text.",
     "97fe": "row 10, column 28, with plain white text.",
@@ -1460,7 +1465,7 @@ COMMAND_LABELS = {
     "13df": "row 12, column 28, with white underlined text.",
     "13e0": "row 13, column 00, with plain white text.",
     "1361": "row 13, column 00, with white underlined text.",
-    "13462": "row 13, column 00, with plain green text.",
+    "1362": "row 13, column 00, with plain green text.",
     "13e3": "row 13, column 00, with green underlined text.",
     "1364": "row 13, column 00, with plain blue text.",
     "13e5": "row 13, column 00, with blue underlined text.",
@@ -1486,6 +1491,7 @@ COMMAND_LABELS = {
     "1379": "row 13, column 16, with white underlined text.",
     "137a": "row 13, column 20, with plain white text.",
     "13fb": "row 13, column 20, with white underlined text.",
+    "137c": "row 13, column 24, with plain white text.",
     "13fc": "row 13, column 24, with plain white text.",
     "13fd": "row 13, column 24, with white underlined text.",
     "13fe": "row 13, column 28, with plain white text.",
@@ -1550,6 +1556,7 @@ COMMAND_LABELS = {
     "9479": "row 15, column 16, with white underlined text.",
     "947a": "row 15, column 20, with plain white text.",
     "94fb": "row 15, column 20, with white underlined text.",
+    "947c": "row 15, column 24, with plain white text.",
     "94fc": "row 15, column 24, with plain white text.",
     "94fd": "row 15, column 24, with white underlined text.",
     "94fe": "row 15, column 28, with plain white text.",
-- 
2.43.0


From ce42bbcd98b50097e6858788f4fe827cfa1ba47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:18 +0000
Subject: [PATCH 18/55] fix: SCC character 7f is the solid block

---
 pycaption/scc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index 1e9023b..6c405dc 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -641,7 +641,7 @@ CHARACTERS = {
     '7c': '÷',
     'fd': 'Ñ',
     'fe': 'ñ',
-    '7f': '',
+    '7f': '█',
     '80': ''
 }
 
-- 
2.43.0


From eb6248ae507e2f8291f578f90c2610387e982f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 19/55] fix: the first row of an SCC pop-on screen does not
 continue the rows of the previous screen

---
 pycaption/scc/__init__.py       |  3 +++
 pycaption/scc/state_machines.py | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 5846f55..fa8194a 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -453,6 +453,7 @@ class SCCReader(BaseReader):
         # clear pop_on buffer
         elif word == "94ae":
             self.buffer = self.node_creator_factory.new_creator()
+            self.node_creator_factory.position_tracker.start_new_screen()
 
         # display pop_on buffer [End Of Caption]
         elif word == "942f":
@@ -465,6 +466,8 @@ class SCCReader(BaseReader):
             cue = PopOnCue(buffer=deepcopy(self.buffer), start=self.time, end=0)
             self.pop_ons_queue.appendleft(cue)
             self.buffer = self.node_creator_factory.new_creator()
+            # the rows of the next screen don't continue the rows of this one
+            self.node_creator_factory.position_tracker.start_new_screen()
 
         # roll up captions [Carriage Return]
         elif word == "94ad":
diff --git a/pycaption/scc/state_machines.py b/pycaption/scc/state_machines.py
index de5a4e8..6cdefb3 100644
--- a/pycaption/scc/state_machines.py
+++ b/pycaption/scc/state_machines.py
@@ -18,6 +18,14 @@ class _PositioningTracker:
         # this attribute is used to store it and determine by comparison if the
         # next positioning is actually a Tab Offset
         self._last_column = None
+        # The first position received on a new screen is absolute
+        self._new_screen = False
+
+    def start_new_screen(self):
+        """Being notified that a new screen starts: the position that comes
+        next (before any text) doesn't continue the rows of the previous one.
+        """
+        self._new_screen = True
 
     def update_positioning(self, positioning):
         """Being notified of a position change, updates the internal state,
@@ -29,6 +37,13 @@ class _PositioningTracker:
         """
         current = self._positions[-1]
 
+        if self._new_screen and positioning:
+            self._new_screen = False
+            self._positions = [positioning]
+            self._break_required = False
+            self._repositioning_required = False
+            return
+
         if not current:
             if positioning:
                 # Set the positioning for the first time
@@ -66,6 +81,7 @@ class _PositioningTracker:
 
         :raise: CaptionReadSyntaxError
         """
+        self._new_screen = False
         if not any(self._positions):
             raise CaptionReadSyntaxError("No Preamble Address Code [PAC] was provided")
         else:
-- 
2.43.0


From a0f938a363ed9a079f9bc406cd86f099d452c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:41 +0000
Subject: [PATCH 20/55] fix: SCC captions that share a start time keep their
 over-long lines in the error

---
 pycaption/scc/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index fa8194a..9018875 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -254,10 +254,7 @@ class SCCReader(BaseReader):
             text_too_long = [
                 line for line in caption_text.split("\n") if len(line) > 32
             ]
-            if caption_start in lines_too_long:
-                lines_too_long[caption_start] = text_too_long
-            else:
-                lines_too_long[caption_start].extend(text_too_long)
+            lines_too_long[caption_start].extend(text_too_long)
 
         msg = ""
         if bool(lines_too_long.keys()):
-- 
2.43.0


From de2b4f1667a677f2c74b80cf2cc9e6b3acf4b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:45 +0000
Subject: [PATCH 21/55] fix: SCC ENM erases the pop-on memory only, never text
 being painted or rolled

---
 pycaption/scc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 9018875..29f4784 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -449,7 +449,7 @@ class SCCReader(BaseReader):
 
         # clear pop_on buffer
         elif word == "94ae":
-            self.buffer = self.node_creator_factory.new_creator()
+            self.buffer_dict["pop"] = self.node_creator_factory.new_creator()
             self.node_creator_factory.position_tracker.start_new_screen()
 
         # display pop_on buffer [End Of Caption]
-- 
2.43.0


From 9d65834efcdf7101d5cc1fe82394a5c77050d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:16 +0000
Subject: [PATCH 22/55] fix: SCC writer pre-rolls the first caption too

---
 pycaption/scc/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 29f4784..d3fdf92 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -562,12 +562,11 @@ class SCCWriter(BaseWriter):
         for index, (code, start, end) in enumerate(codes):
             code_words = len(code) / 5 + 8
             code_time_microseconds = code_words * MICROSECONDS_PER_CODEWORD
-            code_start = start - code_time_microseconds
-            if index == 0:
-                continue
-            previous_code, previous_start, previous_end = codes[index - 1]
-            if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
-                codes[index - 1] = (previous_code, previous_start, None)
+            code_start = max(start - code_time_microseconds, 0)
+            if index > 0:
+                previous_code, previous_start, previous_end = codes[index - 1]
+                if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
+                    codes[index - 1] = (previous_code, previous_start, None)
             codes[index] = (code, code_start, end)
 
         # PASS 3:
-- 
2.43.0


From a04eef5c47b6d5bc601ccf54fd332b0fff12b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:18 +0000
Subject: [PATCH 23/55] fix: SCC writer breaks rows at spaces only, not after
 hyphens

---
 pycaption/scc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index d3fdf92..65f2110 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -586,7 +586,9 @@ class SCCWriter(BaseWriter):
     def _layout_line(caption):
         caption_text = "".join(caption.get_text_nodes())
         inner_lines = caption_text.split("\n")
-        inner_lines_laid_out = [textwrap.fill(x, 32) for x in inner_lines]
+        inner_lines_laid_out = [
+            textwrap.fill(x, 32, break_on_hyphens=False) for x in inner_lines
+        ]
         return "\n".join(inner_lines_laid_out)
 
     @staticmethod
-- 
2.43.0


From cb03affb0fb4dcf115e30122ab40852085308897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:58 +0000
Subject: [PATCH 24/55] fix: escape attribute values in the DFXP output

---
 pycaption/dfxp/base.py   | 15 ++++++++++++---
 pycaption/dfxp/extras.py |  9 +++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 559c49a..1321e33 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,10 +1,11 @@
 import re
 from copy import deepcopy
 from fractions import Fraction
-from xml.sax.saxutils import escape
+from xml.sax.saxutils import escape, quoteattr
 
 from bs4 import BeautifulSoup, CData, NavigableString
 from bs4.element import PreformattedString
+from bs4.formatter import XMLFormatter
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -397,7 +398,7 @@ class DFXPWriter(BaseWriter):
 
             body.append(div)
         self.region_creator.cleanup_regions()
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=_AttributeEscapingFormatter())
         return caption_content
 
     @staticmethod
@@ -484,7 +485,7 @@ class DFXPWriter(BaseWriter):
 
             content_with_style = _recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}={quoteattr(str(value))}'
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
@@ -522,6 +523,14 @@ class DFXPWriter(BaseWriter):
         return escape(s)
 
 
+class _AttributeEscapingFormatter(XMLFormatter):
+    """Escapes the markup in attribute values, and leaves the text alone, since
+    the text of the paragraphs already is markup
+    """
+    def attribute_value(self, value):
+        return escape(value)
+
+
 class LayoutAwareDFXPParser(BeautifulSoup):
     """This makes the xml instance capable of providing layout information
     for every one of its nodes (it adds a 'layout_info' attribute on each node)
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 2226f0a..f963131 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -2,11 +2,12 @@
 # in a lot of cases, but since the transformations on them could be quite
 # complex, the deepcopy method is good enough sometimes.
 from copy import deepcopy
-from xml.sax.saxutils import escape
+from xml.sax.saxutils import escape, quoteattr
 
 from bs4 import BeautifulSoup
 
-from .base import DFXPWriter, DFXP_DEFAULT_REGION
+from .base import (
+    DFXPWriter, DFXP_DEFAULT_REGION, _AttributeEscapingFormatter)
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -139,7 +140,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             body.append(div)
 
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=_AttributeEscapingFormatter())
         return caption_content
 
     # force the DFXP to only have one language, trying to match on "force"
@@ -211,7 +212,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             content_with_style = self._recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}={quoteattr(str(value))}'
 
             if styles:
                 if self.open_span:
-- 
2.43.0


From 0926ab4d866db137601c169ea01573835aee25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:48 +0000
Subject: [PATCH 25/55] fix: do not repeat an attribute of a DFXP span when
 positioning is written inline

---
 pycaption/dfxp/base.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 1321e33..415a5f4 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -481,24 +481,20 @@ class DFXPWriter(BaseWriter):
         # We are left with creating tags manually, which is hard to understand
         # and harder to maintain
         if node.start:
-            styles = ''
-
-            content_with_style = _recreate_style(node.content, dfxp)
-            for style, value in list(content_with_style.items()):
-                styles += f' {style}={quoteattr(str(value))}'
+            attributes = _recreate_style(node.content, dfxp)
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
                         lang, caption_set, caption, node
                     ))
-                styles += f' region="{region_id}"'
+                attributes['region'] = region_id
                 if self.write_inline_positioning:
-                    styles += ' ' + ' '.join(
-                        [
-                            f'{k_}="{v_}"'
-                            for k_, v_ in list(region_attribs.items())
-                        ]
-                    )
+                    attributes.update(region_attribs)
+
+            styles = ''.join(
+                f' {attribute}={quoteattr(str(value))}'
+                for attribute, value in attributes.items()
+            )
 
             if styles:
                 if self.open_span:
-- 
2.43.0


From ec75c7f4e7ec9f4ac326d42c51632c404b92d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:34 +0000
Subject: [PATCH 26/55] fix: do not give a DFXP region the id of a style

---
 pycaption/dfxp/base.py   | 18 ++++++++++++------
 pycaption/dfxp/extras.py | 10 ++++++----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 415a5f4..31257ce 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1017,6 +1017,7 @@ class RegionCreator:
         self._caption_set = caption_set
         self._region_map = {}
         self._id_seed = 0
+        self._default_region_id = DFXP_DEFAULT_REGION_ID
         self._assigned_region_ids = set()
 
     @staticmethod
@@ -1092,9 +1093,11 @@ class RegionCreator:
         Makes sure we have a default region
         """
         # Creates the default region
+        if self._dfxp.find(attrs={'xml:id': DFXP_DEFAULT_REGION_ID}):
+            self._default_region_id = self._get_new_id(DFXP_DEFAULT_REGION_ID)
         default_region_map = self._create_unique_regions(
             [DFXP_DEFAULT_REGION],
-            self._dfxp, lambda: DFXP_DEFAULT_REGION_ID
+            self._dfxp, lambda: self._default_region_id
         )
         unique_regions = self._collect_unique_regions(
             self._caption_set, DFXP_DEFAULT_REGION)
@@ -1106,13 +1109,16 @@ class RegionCreator:
         self._region_map.update(default_region_map)
 
     def _get_new_id(self, prefix='r'):
-        """Return new, unique ids (use an internal counter).
+        """Return new, unique ids (use an internal counter). The ids already
+        used in the document (by its styles) are skipped.
 
         :type prefix: str
         """
-        new_id = f'{prefix}{self._id_seed}'
-        self._id_seed += 1
-        return new_id
+        while True:
+            new_id = f'{prefix}{self._id_seed}'
+            self._id_seed += 1
+            if not self._dfxp.find(attrs={'xml:id': new_id}):
+                return new_id
 
     def get_positioning_info(
             self, lang, caption_set=None, caption=None, caption_node=None):
@@ -1158,7 +1164,7 @@ class RegionCreator:
         # Make sure the default region ID/ attributes are always returned
         # as fallback
         if not region_id:
-            region_id = DFXP_DEFAULT_REGION_ID
+            region_id = self._default_region_id
 
         positioning_attributes = _convert_layout_to_attributes(layout_info)
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index f963131..eda90b2 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -113,8 +113,11 @@ class LegacyDFXPWriter(BaseWriter):
 
         # XXX For now we will always use this default region. In the future if
         # regions are provided, they will be kept
+        region_id = LEGACY_DFXP_DEFAULT_REGION_ID
+        while dfxp.find(attrs={'xml:id': region_id}):
+            region_id += '_'
         dfxp = self._recreate_region_tag(
-            LEGACY_DFXP_DEFAULT_REGION_ID, LEGACY_DFXP_DEFAULT_REGION, dfxp)
+            region_id, LEGACY_DFXP_DEFAULT_REGION, dfxp)
 
         body = dfxp.find('body')
 
@@ -130,11 +133,10 @@ class LegacyDFXPWriter(BaseWriter):
             for caption in caption_set.get_captions(lang):
                 if caption.style:
                     caption_style = caption.style
-                    caption_style.update(
-                        {'region': LEGACY_DFXP_DEFAULT_REGION_ID})
+                    caption_style.update({'region': region_id})
                 else:
                     caption_style = {'class': LEGACY_DFXP_DEFAULT_STYLE_ID,
-                                     'region': LEGACY_DFXP_DEFAULT_REGION_ID}
+                                     'region': region_id}
                 p = self._recreate_p_tag(caption, caption_style, dfxp)
                 div.append(p)
 
-- 
2.43.0


From 6f9ccae61190ea04356abf230b9065ff9e36f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:11 +0000
Subject: [PATCH 27/55] fix: legacy DFXP writer leaves out the region when
 nothing refers to it

---
 pycaption/dfxp/extras.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index eda90b2..afe87e8 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -142,6 +142,10 @@ class LegacyDFXPWriter(BaseWriter):
 
             body.append(div)
 
+        # A region that no caption refers to is not needed
+        if not body.find(attrs={'region': region_id}):
+            dfxp.find('layout').clear()
+
         caption_content = dfxp.prettify(formatter=_AttributeEscapingFormatter())
         return caption_content
 
-- 
2.43.0


From e4ec825543463e76c43d28a83bba27f1950902a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 28/55] fix: write DFXP style ids that are XML names

---
 pycaption/dfxp/base.py   | 23 +++++++++++++++++++----
 pycaption/dfxp/extras.py | 12 +++++++-----
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 31257ce..908cd68 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -431,13 +431,13 @@ class DFXPWriter(BaseWriter):
     def _recreate_styling_tag(self, style, content, dfxp):
         # TODO - should be drastically simplified: if attributes : append
         dfxp_style = dfxp.new_tag('style')
-        dfxp_style.attrs.update({'xml:id': style})
+        dfxp_style.attrs.update({'xml:id': _create_style_id(style)})
 
         attributes = _recreate_style(content, dfxp)
         dfxp_style.attrs.update(attributes)
 
         new_tag = dfxp.new_tag('style')
-        new_tag.attrs.update({'xml:id': style})
+        new_tag.attrs.update({'xml:id': _create_style_id(style)})
         if dfxp_style != new_tag:
             dfxp.find('styling').append(dfxp_style)
 
@@ -1188,12 +1188,27 @@ class RegionCreator:
                 region.extract()
 
 
+def _create_style_id(name):
+    """The value of an xml:id attribute must be an XML name: it can't be empty,
+    start with a digit or contain a blank, for instance. The characters of the
+    style name which are not always accepted in one are written as _xHHHH_, the
+    way XML names are usually encoded. That keeps different names different.
+
+    :type name: str
+    :rtype: str
+    """
+    return re.sub(
+        r'[^A-Za-z0-9._-]|^[0-9.-]|_(?=x[0-9A-F]+_)|^$',
+        lambda match: f'_x{ord(match.group() or chr(0)):04X}_', name)
+
+
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
     if 'class' in content:
-        if dfxp.find("style", {"xml:id": content['class']}):
-            dfxp_style['style'] = content['class']
+        style_id = _create_style_id(content['class'])
+        if dfxp.find("style", {"xml:id": style_id}):
+            dfxp_style['style'] = style_id
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if 'italics' in content:
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index afe87e8..0b9b460 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -7,7 +7,8 @@ from xml.sax.saxutils import escape, quoteattr
 from bs4 import BeautifulSoup
 
 from .base import (
-    DFXPWriter, DFXP_DEFAULT_REGION, _AttributeEscapingFormatter)
+    DFXPWriter, DFXP_DEFAULT_REGION, _AttributeEscapingFormatter,
+    _create_style_id)
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -172,13 +173,13 @@ class LegacyDFXPWriter(BaseWriter):
 
     def _recreate_styling_tag(self, style, content, dfxp):
         dfxp_style = dfxp.new_tag('style')
-        dfxp_style.attrs.update({'xml:id': style})
+        dfxp_style.attrs.update({'xml:id': _create_style_id(style)})
 
         attributes = self._recreate_style(content, dfxp)
         dfxp_style.attrs.update(attributes)
 
         new_tag = dfxp.new_tag('style')
-        new_tag.attrs.update({'xml:id': style})
+        new_tag.attrs.update({'xml:id': _create_style_id(style)})
         if dfxp_style != new_tag:
             dfxp.find('styling').append(dfxp_style)
 
@@ -239,8 +240,9 @@ class LegacyDFXPWriter(BaseWriter):
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
         if 'class' in content:
-            if dfxp.find("style", {"xml:id": content['class']}):
-                dfxp_style['style'] = content['class']
+            style_id = _create_style_id(content['class'])
+            if dfxp.find("style", {"xml:id": style_id}):
+                dfxp_style['style'] = style_id
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if 'italics' in content:
-- 
2.43.0


From e1b92ce4ab77a2b01166204780c2d6d4c84eb203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:22 +0000
Subject: [PATCH 29/55] fix: DFXP writer without force= writes every language,
 also next to an unnamed one

---
 pycaption/dfxp/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 908cd68..6f7d6a7 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -348,7 +348,7 @@ class DFXPWriter(BaseWriter):
         dfxp = BeautifulSoup(DFXP_BASE_MARKUP, 'lxml-xml')
 
         langs = caption_set.get_languages()
-        if force in langs:
+        if force and force in langs:
             langs = [force]
             dfxp.find('tt')['xml:lang'] = force
         else:
-- 
2.43.0


From c335f59cd7921dc9fb0578d21c19125ec53939b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:49 +0000
Subject: [PATCH 30/55] fix: fit_to_screen does not make extents negative

---
 pycaption/geometry.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index f5cc8b0..d7c0ec8 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -819,6 +819,18 @@ class Layout:
                                                           video_height)
         return Layout(**params)
 
+    @staticmethod
+    def _get_space_after(position, safe_limit):
+        """The space between a position and the edge of the safe area or, for
+        a position outside of it, the edge of the screen. It's never negative.
+
+        :type position: Size
+        :param safe_limit: edge of the safe area, as a percentage
+        :rtype: Size
+        """
+        limit = safe_limit if position.value <= safe_limit else 100
+        return Size(max(limit - position.value, 0), UnitEnum.PERCENT)
+
     def fit_to_screen(self):
         """
         If extent is not set or if origin + extent > 90%, (re)calculate it
@@ -832,8 +844,8 @@ class Layout:
 
         if self.origin:
             # Calculated values to be used if replacement is needed
-            diff_horizontal = Size(90 - self.origin.x.value, UnitEnum.PERCENT)
-            diff_vertical = Size(95 - self.origin.y.value, UnitEnum.PERCENT)
+            diff_horizontal = self._get_space_after(self.origin.x, 90)
+            diff_vertical = self._get_space_after(self.origin.y, 95)
             if not self.extent:
                 # Extent is not set, use the calculated values
                 new_extent = Stretch(diff_horizontal, diff_vertical)
-- 
2.43.0


From 11e279b1c29234b952244b9c01d3420ee7984651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 31/55] fix: SAMI languages are listed in order of appearance,
 not in hash order

---
 pycaption/sami.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index a9bc49f..e9937a4 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -648,7 +648,8 @@ class SAMIParser(HTMLParser):
         self.line = ''
         self.styles = {}
         self.queue = deque()
-        self.langs = set()
+        # A dictionary, to keep the languages in order of appearance
+        self.langs = {}
         self.last_element = ''
         self.name2codepoint = name2codepoint.copy()
         self.name2codepoint['apos'] = 0x0027
@@ -673,7 +674,7 @@ class SAMIParser(HTMLParser):
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
             attrs.append(('lang', lang))
-            self.langs.add(lang)
+            self.langs[lang] = None
 
         # clean-up line breaks
         if tag == 'br':
@@ -730,7 +731,7 @@ class SAMIParser(HTMLParser):
     def feed(self, data):
         """
         :param data: Raw SAMI unicode string
-        :returns: tuple (str, dict, set)
+        :returns: tuple (str, dict, list)
         """
         no_cc = 'no closed captioning available'
 
@@ -761,7 +762,7 @@ class SAMIParser(HTMLParser):
             closing_tag = self.queue.pop()
             self.sami += f"</{closing_tag}>"
 
-        return self.sami, self.styles, self.langs
+        return self.sami, self.styles, list(self.langs)
 
     # parse the SAMI's stylesheet
     def _css_parse(self, css):
-- 
2.43.0


From 40fae37bdd35660ecab967650d54e39b182fb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 32/55] fix: match SAMI languages exactly, so that pt does not
 take or lose the captions of pt-BR

---
 pycaption/sami.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index e9937a4..8700ddf 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -194,7 +194,7 @@ class SAMIReader(BaseReader):
         captions = CaptionList(layout_info=parent_layout)
         milliseconds = 0
 
-        for p in sami_soup.select(f'p[lang|={language}]'):
+        for p in sami_soup.find_all('p', attrs={'lang': language}):
             start_str = p.parent.get('start')
             if not start_str:
                 raise CaptionReadTimingError(
@@ -519,7 +519,7 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_p_lang(self, caption, lang, captions):
         try:
-            if 'lang' in captions.get_style(caption.style['class']):
+            if captions.get_style(caption.style['class'])['lang'] == lang:
                 return caption.style['class']
         except KeyError:
             pass
@@ -533,9 +533,15 @@ class SAMIWriter(BaseWriter):
                 stylesheet += self._recreate_style_block(
                     attr, value, caption_set.layout_info)
 
+        declared = {
+            rules.get('lang') for _, rules in caption_set.get_styles()}
         for lang in caption_set.get_languages():
-            lang_string = f'lang: {lang}'
-            if lang_string not in stylesheet:
+            classes = {
+                self._recreate_p_lang(caption, lang, caption_set)
+                for caption in caption_set.get_captions(lang)
+            }
+            if (lang not in declared or lang in classes
+                    and caption_set.get_style(lang).get('lang') != lang):
                 stylesheet += self._recreate_style_block(
                     lang, {'lang': lang}, caption_set.get_layout_info(lang))
 
@@ -673,6 +679,10 @@ class SAMIParser(HTMLParser):
 
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
+            attrs = [
+                (attr, value) for attr, value in attrs
+                if attr.lower() != 'lang'
+            ]
             attrs.append(('lang', lang))
             self.langs[lang] = None
 
-- 
2.43.0


From 6d4efd3e647ccc21e4e31cd10ec34b5cbe49aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:43 +0000
Subject: [PATCH 33/55] fix: a span left open in one caption does not leak into
 the next one or the next write

---
 pycaption/dfxp/base.py   | 6 ++++++
 pycaption/dfxp/extras.py | 6 ++++++
 pycaption/sami.py        | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 6f7d6a7..66d81d3 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -459,6 +459,7 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
+        self.open_span = False
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
@@ -471,6 +472,11 @@ class DFXPWriter(BaseWriter):
                 line = self._recreate_span(
                     line, node, dfxp, caption_set, caption, lang)
 
+        # A span doesn't reach into the next caption
+        if self.open_span:
+            line += '</span>'
+            self.open_span = False
+
         return line.rstrip()
 
     def _recreate_span(self, line, node, dfxp, caption_set=None, caption=None,
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 0b9b460..a5bd476 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -200,6 +200,7 @@ class LegacyDFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp):
         line = ''
+        self.open_span = False
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
@@ -211,6 +212,11 @@ class LegacyDFXPWriter(BaseWriter):
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_span(line, node, dfxp)
 
+        # A span doesn't reach into the next caption
+        if self.open_span:
+            line += '</span>'
+            self.open_span = False
+
         return line.rstrip()
 
     def _recreate_span(self, line, node, dfxp):
diff --git a/pycaption/sami.py b/pycaption/sami.py
index 8700ddf..9ab4fb8 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -579,6 +579,7 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_text(self, caption):
         line = ''
+        self.open_span = False
 
         for node in caption:
             if node.type_ == CaptionNode.TEXT:
@@ -588,6 +589,11 @@ class SAMIWriter(BaseWriter):
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_line_style(line, node)
 
+        # A span doesn't reach into the next caption
+        if self.open_span:
+            line = line.rstrip() + '</span>'
+            self.open_span = False
+
         return line.rstrip()
 
     def _recreate_line_style(self, line, node):
-- 
2.43.0


From 9203cd4a284a94b8df31f343089ec7a36be86894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:38 +0000
Subject: [PATCH 34/55] fix: caption sets and captions built without styles do
 not share one dictionary

---
 pycaption/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 1fa7789..55f9e1a 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -175,7 +175,7 @@ class Caption:
     for its display.
     """
 
-    def __init__(self, start, end, nodes, style={}, layout_info=None):
+    def __init__(self, start, end, nodes, style=None, layout_info=None):
         """
         Initialize the Caption object
         :param start: The start time in microseconds
@@ -203,7 +203,7 @@ class Caption:
         self.start = start
         self.end = end
         self.nodes = nodes
-        self.style = style
+        self.style = {} if style is None else style
         self.layout_info = layout_info
 
     def is_empty(self):
@@ -306,14 +306,14 @@ class CaptionSet:
     by all the children.
     """
 
-    def __init__(self, captions, styles={}, layout_info=None):
+    def __init__(self, captions, styles=None, layout_info=None):
         """
         :param captions: A dictionary of the format {'language': CaptionList}
         :param styles: A dictionary with CSS-like styling rules
         :param Layout layout_info: A Layout object with the positioning info
         """
         self._captions = captions
-        self._styles = styles
+        self._styles = {} if styles is None else styles
         self.layout_info = layout_info
 
     def set_captions(self, lang, captions):
-- 
2.43.0


From 5e59aecc75f81956a4ee402346a76e7f104d3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:41 +0000
Subject: [PATCH 35/55] fix: SCCReader starts every read afresh

---
 pycaption/scc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 65f2110..1084808 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -170,6 +170,10 @@ class SCCReader(BaseReader):
     """
 
     def __init__(self, *args, **kw):
+        self._reset()
+
+    def _reset(self):
+        """Forget everything about the document read before"""
         self.caption_stash = CaptionCreator()
         self.time_translator = _SccTimeTranslator()
 
@@ -233,6 +237,7 @@ class SCCReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError("The content is not a unicode string.")
 
+        self._reset()
         self.simulate_roll_up = simulate_roll_up
         self.time_translator.offset = offset * 1000000
         # split lines
-- 
2.43.0


From c4a07d769b3371e5ab386934a6eba6049707aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 36/55] fix: accept only ASCII decimal numbers as sizes,
 without a trailing newline

---
 pycaption/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index d7c0ec8..3db48e7 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -503,9 +503,9 @@ class Size:
         :rtype: Size
         """
         size_pattern = re.compile(
-            r"^(((?P<value>\d+(\.\d+)?)(?P<unit>"
-            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)$")
-        match = size_pattern.search(string)
+            r"((?P<value>[0-9]+(\.[0-9]+)?)(?P<unit>"
+            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0")
+        match = size_pattern.fullmatch(string)
         if not match:
             raise CaptionReadSyntaxError(
                 f"Invalid size: {string}. Please make sure the provided value "
-- 
2.43.0


From 2ab1ad75172f1941bf16373d954a00be856c3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 37/55] fix: SRT detection of inputs of a single line

---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index ad093d1..2dd17f3 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -9,7 +9,7 @@ from .exceptions import CaptionReadNoCaptions, InvalidInputError
 class SRTReader(BaseReader):
     def detect(self, content):
         lines = content.splitlines()
-        if lines[0].isdigit() and '-->' in lines[1]:
+        if len(lines) > 1 and lines[0].isdigit() and '-->' in lines[1]:
             return True
         else:
             return False
-- 
2.43.0


From 2244d1374e477cb211a2e6a461abd97b18bdc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 38/55] fix: no SRT language separator for languages without
 captions

---
 pycaption/srt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 2dd17f3..d0146e8 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -91,9 +91,10 @@ class SRTWriter(BaseWriter):
         srt_captions = []
 
         for lang in caption_set.get_languages():
-            srt_captions.append(
-                self._recreate_lang(caption_set.get_captions(lang))
-            )
+            if caption_set.get_captions(lang):
+                srt_captions.append(
+                    self._recreate_lang(caption_set.get_captions(lang))
+                )
 
         caption_content = 'MULTI-LANGUAGE SRT\n'.join(srt_captions)
         return caption_content
-- 
2.43.0


From cd420dd6eef14a0bb9ec74cda223b47697c36e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 39/55] fix: WebVTT output of styles that refer to themselves

---
 pycaption/webvtt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index c0b11bf..2d7670a 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -239,7 +239,7 @@ class WebVTTWriter(BaseWriter):
         else:
             return ["", ""]
 
-    def _calculate_resulting_style(self, style, caption_set):
+    def _calculate_resulting_style(self, style, caption_set, seen=()):
         resulting_style = {}
 
         style_classes = []
@@ -249,10 +249,14 @@ class WebVTTWriter(BaseWriter):
             style_classes = [style["class"]]
 
         for style_class in style_classes:
+            if style_class in seen:
+                # classes that refer to each other in a circle
+                continue
             sub_style = caption_set.get_style(style_class).copy()
             # Recursively resolve class attributes and calculate style
             resulting_style.update(
-                self._calculate_resulting_style(sub_style, caption_set)
+                self._calculate_resulting_style(
+                    sub_style, caption_set, (*seen, style_class))
             )
 
         resulting_style.update(style)
-- 
2.43.0


From 0c05adb7bac0b0b7d14e36fbe178af4680930725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 40/55] fix: DFXPReader keeps every div of a language, each
 paragraph in its own div

---
 pycaption/dfxp/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 66d81d3..3e57a19 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -107,11 +107,16 @@ class DFXPReader(BaseReader):
         default_language = dfxp_document.tt.attrs.get('xml:lang',
                                                       DEFAULT_LANGUAGE_CODE)
 
-        # Each div represents all the captions for a single language.
+        # Each div represents captions for a single language. There may be
+        # more than one div for the same language.
         for div in dfxp_document.find_all('div'):
             lang = div.attrs.get('xml:lang', default_language)
 
-            caption_dict[lang] = self._convert_div_to_caption_list(div)
+            captions = self._convert_div_to_caption_list(div)
+            if lang in caption_dict:
+                caption_dict[lang].extend(captions)
+            else:
+                caption_dict[lang] = captions
 
         for style in dfxp_document.find_all('style'):
             id_ = style.attrs.get('xml:id') or style.attrs.get('id')
@@ -137,7 +142,8 @@ class DFXPReader(BaseReader):
     def _convert_div_to_caption_list(self, div):
         return CaptionList(
             [self._convert_p_tag_to_caption(p_tag)
-             for p_tag in div.find_all('p') if p_tag.get_text().strip()],
+             for p_tag in div.find_all('p')
+             if p_tag.find_parent('div') is div and p_tag.get_text().strip()],
             div.layout_info
         )
 
-- 
2.43.0


From 56e6e4c668253597a6f681ac9b8f81ef7ce14a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:54 +0000
Subject: [PATCH 41/55] fix: SAMI language class named like another language's
 class

---
 pycaption/sami.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 9ab4fb8..ab0e7b2 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -523,7 +523,15 @@ class SAMIWriter(BaseWriter):
                 return caption.style['class']
         except KeyError:
             pass
-        return lang
+        return self._recreate_lang_class(lang, captions)
+
+    @staticmethod
+    def _recreate_lang_class(lang, captions):
+        # The class named like the language, unless it is another language's
+        class_name = lang
+        while captions.get_style(class_name).get('lang', lang) != lang:
+            class_name += '_'
+        return class_name
 
     def _recreate_stylesheet(self, caption_set):
         stylesheet = '<!--'
@@ -540,10 +548,12 @@ class SAMIWriter(BaseWriter):
                 self._recreate_p_lang(caption, lang, caption_set)
                 for caption in caption_set.get_captions(lang)
             }
-            if (lang not in declared or lang in classes
-                    and caption_set.get_style(lang).get('lang') != lang):
+            lang_class = self._recreate_lang_class(lang, caption_set)
+            if (lang not in declared or lang_class in classes
+                    and caption_set.get_style(lang_class).get('lang') != lang):
                 stylesheet += self._recreate_style_block(
-                    lang, {'lang': lang}, caption_set.get_layout_info(lang))
+                    lang_class, {'lang': lang},
+                    caption_set.get_layout_info(lang))
 
         return stylesheet + '   -->'
 
-- 
2.43.0


From 17f691db5abf8d31c1efeb2b42b6a82c6cad1812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 42/55] fix: DFXPWriter relativizes the layouts of the
 languages and the set

---
 pycaption/dfxp/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 3e57a19..e4f67de 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -362,12 +362,20 @@ class DFXPWriter(BaseWriter):
 
         caption_set = deepcopy(caption_set)
 
-        # Loop through all captions/nodes and apply transformations to layout
-        # in function of the provided or default settings
+        # Loop through all languages/captions/nodes and apply transformations
+        # to layout in function of the provided or default settings
+        caption_set.layout_info = self._relativize_and_fit_to_screen(
+            caption_set.layout_info)
         for lang in langs:
+            lang_layout = caption_set.get_layout_info(lang)
+            if lang_layout and self.relativize:
+                caption_set.set_layout_info(
+                    lang, lang_layout.as_percentage_of(
+                        self.video_width, self.video_height))
             for caption in caption_set.get_captions(lang):
+                # The captions inherit the layout of their language
                 caption.layout_info = self._relativize_and_fit_to_screen(
-                    caption.layout_info)
+                    caption.layout_info or lang_layout)
                 for node in caption.nodes:
                     node.layout_info = self._relativize_and_fit_to_screen(
                         node.layout_info)
-- 
2.43.0


From fcf3ef831974c7492919561a230ba4ec55b648ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:17 +0000
Subject: [PATCH 43/55] fix: SAMI margins of a language's class come from the
 language's layout

---
 pycaption/sami.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index ab0e7b2..2e426fb 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -538,8 +538,11 @@ class SAMIWriter(BaseWriter):
 
         for attr, value in caption_set.get_styles():
             if value != {}:
+                # The class of a language positions its captions
+                layout_info = (caption_set.get_layout_info(value.get('lang'))
+                               or caption_set.layout_info)
                 stylesheet += self._recreate_style_block(
-                    attr, value, caption_set.layout_info)
+                    attr, value, layout_info)
 
         declared = {
             rules.get('lang') for _, rules in caption_set.get_styles()}
-- 
2.43.0


From bb55c41b246fe9caa524e182aeb0db0e10d0d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 44/55] fix: WebVTT cues split by layout keep their spans
 balanced and include text without a layout

---
 pycaption/webvtt.py | 72 ++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 2d7670a..8c6df83 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -267,7 +267,9 @@ class WebVTTWriter(BaseWriter):
         """
         :type caption: Caption
         """
-        layout_groups = self._group_cues_by_layout(caption.nodes, caption_set)
+        layout_groups = self._group_cues_by_layout(
+            caption.nodes, caption_set, caption.layout_info or self.global_layout
+        )
 
         start = self._timestamp(caption.start)
         end = self._timestamp(caption.end)
@@ -286,8 +288,6 @@ class WebVTTWriter(BaseWriter):
                 cue_style_tags[1] = tags[1] + cue_style_tags[1]
 
         for cue_text, layout in layout_groups:
-            if not layout:
-                layout = caption.layout_info or self.global_layout
             cue_settings = self._convert_positioning(layout)
             if output:
                 # cues are separated by a blank line
@@ -387,15 +387,16 @@ class WebVTTWriter(BaseWriter):
 
         return cue_settings
 
-    def _group_cues_by_layout(self, nodes, caption_set):
+    def _group_cues_by_layout(self, nodes, caption_set, default_layout=None):
         """
         Convert a Caption's nodes to WebVTT cue or cues (depending on
         whether they have the same positioning or not).
+        :param default_layout: The layout of the nodes that have none.
         """
         if not nodes:
             return []
 
-        current_layout = None
+        current_layout = default_layout
 
         # A list with layout groups. Since WebVTT only support positioning
         # for different cues, each layout group has to be represented in a
@@ -404,13 +405,26 @@ class WebVTTWriter(BaseWriter):
         # A properly encoded WebVTT string (plain unicode must be properly
         # escaped before being appended to this string)
         s = ""
+        has_text = False
+        # The (start, end) tags of the open spans. The last ones are pending:
+        # whether they belong to the current cue or to the next one depends on
+        # the text that follows.
+        spans = []
+        pending = 0
         for i, node in enumerate(nodes):
             if node.type_ == CaptionNode.TEXT:
-                if s and current_layout and node.layout_info != current_layout:
+                layout = node.layout_info or default_layout
+                if has_text and layout != current_layout:
                     # If the positioning changes from one text node to
                     # another, a new WebVTT cue has to be created.
+                    opened = spans[: len(spans) - pending]
+                    s += "".join(end for _, end in reversed(opened))
                     layout_groups.append((self._encode_arrows(s), current_layout))
-                    s = ""
+                    s = "".join(start for start, _ in opened)
+                current_layout = layout
+                has_text = True
+                s += self._open_spans(spans, pending)
+                pending = 0
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
                 if node.content:
@@ -418,37 +432,47 @@ class WebVTTWriter(BaseWriter):
                 elif not s or s.endswith("\n"):
                     # a blank line would end the cue
                     s += "&nbsp;"
-                current_layout = node.layout_info
             elif node.type_ == CaptionNode.STYLE:
-                resulting_style = self._calculate_resulting_style(
-                    node.content, caption_set
-                )
-
-                styles = ["italics", "underline", "bold"]
-                if not node.start:
-                    styles.reverse()
-
-                for style in styles:
-                    if style in resulting_style and resulting_style[style]:
-                        tags = self._convert_style_to_text_tag(style)
-                        if node.start:
-                            s += tags[0]
-                        else:
-                            s += tags[1]
-
                 # TODO: Refactor pycaption and eliminate the concept of a
                 # "Style node"
+                if node.start:
+                    spans.append(self._get_span_tags(node.content, caption_set))
+                    pending += 1
+                elif spans:
+                    s += self._open_spans(spans, pending)
+                    pending = 0
+                    s += spans.pop()[1]
             elif node.type_ == CaptionNode.BREAK:
+                s += self._open_spans(spans, pending)
+                pending = 0
                 if i > 0 and nodes[i - 1].type_ != CaptionNode.TEXT:
                     s += "&nbsp;"
                 if i == 0:  # cue text starts with a break
                     s += "&nbsp;"
                 s += "\n"
 
+        s += self._open_spans(spans, pending)
+        s += "".join(end for _, end in reversed(spans))
         if s:
             layout_groups.append((self._encode_arrows(s), current_layout))
         return layout_groups
 
+    @staticmethod
+    def _open_spans(spans, count):
+        """The start tags of the last spans"""
+        return "".join(start for start, _ in spans[len(spans) - count:])
+
+    def _get_span_tags(self, style, caption_set):
+        """The start and the end tags of a span of the given style"""
+        resulting_style = self._calculate_resulting_style(style, caption_set)
+        start_tags = end_tags = ""
+        for key in ["italics", "underline", "bold"]:
+            if resulting_style.get(key):
+                tags = self._convert_style_to_text_tag(key)
+                start_tags += tags[0]
+                end_tags = tags[1] + end_tags
+        return start_tags, end_tags
+
     @staticmethod
     def _encode_arrows(s):
         """
-- 
2.43.0


From 16129afcbe03a6f8899b58e157b607a5ceb9dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 45/55] fix: fit_to_screen keeps the written, rounded region
 inside the safe area

---
 pycaption/geometry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index 3db48e7..97e2702 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -829,7 +829,8 @@ class Layout:
         :rtype: Size
         """
         limit = safe_limit if position.value <= safe_limit else 100
-        return Size(max(limit - position.value, 0), UnitEnum.PERCENT)
+        # The position is written with two decimals
+        return Size(max(limit - round(position.value, 2), 0), UnitEnum.PERCENT)
 
     def fit_to_screen(self):
         """
@@ -872,9 +873,11 @@ class Layout:
                 new_vertical = self.extent.vertical
                 # If extent is set but it's inconsistent, replace with
                 # calculated values
-                if bottom_right.x.value > 90:
+                if (bottom_right.x.value > 90
+                        or new_horizontal.value > diff_horizontal.value):
                     new_horizontal = diff_horizontal
-                if bottom_right.y.value > 95:
+                if (bottom_right.y.value > 95
+                        or new_vertical.value > diff_vertical.value):
                     new_vertical = diff_vertical
 
                 new_extent = Stretch(new_horizontal, new_vertical)
-- 
2.43.0


From 05054840e7a240cf5f3dd8ed1b7f232e2124a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 46/55] fix: DFXP text nodes with a layout of their own are
 written in the region of that layout

---
 pycaption/dfxp/base.py | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index e4f67de..8838770 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -475,7 +475,7 @@ class DFXPWriter(BaseWriter):
         line = ''
         self.open_span = False
 
-        for node in caption.nodes:
+        for node in self._position_text(caption):
             if node.type_ == CaptionNode.TEXT:
                 line += self._encode(node.content)
 
@@ -493,6 +493,46 @@ class DFXPWriter(BaseWriter):
 
         return line.rstrip()
 
+    @staticmethod
+    def _position_text(caption):
+        """Only the paragraphs and the spans have a region. Returns the nodes
+        of the caption, with the text that has another layout than what it's in
+        in a span of its own.
+        """
+        nodes = []
+        # The start of the current span, and its layout
+        span = span_layout = None
+
+        for node in caption.nodes:
+            if node.type_ == CaptionNode.STYLE:
+                span = node if node.start else None
+                span_layout = node.layout_info if node.start else None
+
+            elif node.type_ == CaptionNode.TEXT:
+                layout = (node.layout_info or span_layout
+                          or caption.layout_info)
+                current = (span and span.layout_info) or caption.layout_info
+
+                if layout != current and not span:
+                    nodes.extend([
+                        CaptionNode.create_style(True, {}, layout),
+                        node,
+                        CaptionNode.create_style(False, {}, layout)])
+                    continue
+                elif layout != current:
+                    # The rest of the span is elsewhere
+                    if nodes[-1] is span:
+                        nodes.pop()
+                    else:
+                        nodes.append(
+                            CaptionNode.create_style(False, span.content))
+                    span = CaptionNode.create_style(True, span.content, layout)
+                    nodes.append(span)
+
+            nodes.append(node)
+
+        return nodes
+
     def _recreate_span(self, line, node, dfxp, caption_set=None, caption=None,
                        lang=None):
         # TODO - This method seriously has to go away!
-- 
2.43.0


From 5c7a1b2db17c3e625aec4e11cac442309bee0476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 47/55] fix: DFXP output of text that refers to several styles,
 or to a style with a later name

---
 pycaption/dfxp/base.py   | 44 +++++++++++++++++++++++++++++++++++-----
 pycaption/dfxp/extras.py | 14 +++++++------
 2 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 8838770..31386c8 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -381,7 +381,7 @@ class DFXPWriter(BaseWriter):
                         node.layout_info)
 
         # Create the styles in the <styling> section, or a default style.
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in _sort_styles(caption_set.get_styles()):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
@@ -1262,13 +1262,47 @@ def _create_style_id(name):
         lambda match: f'_x{ord(match.group() or chr(0)):04X}_', name)
 
 
+def _sort_styles(styles):
+    """Only the styles already in the document can be referred to: every style
+    has to come after the ones that it refers to
+
+    :param styles: list of (name, style) tuples
+    :rtype: list
+    """
+    remaining = dict(styles)
+    result = []
+
+    def add(name):
+        if name in remaining:
+            style = remaining.pop(name)
+            for class_name in _get_classes(style):
+                add(class_name)
+            result.append((name, style))
+
+    for name, _ in styles:
+        add(name)
+    return result
+
+
+def _get_classes(content):
+    """The names of the styles that a style refers to
+
+    :param content: a style dictionary
+    :rtype: list
+    """
+    if content.get('classes'):
+        return content['classes']
+    return [content['class']] if 'class' in content else []
+
+
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
-    if 'class' in content:
-        style_id = _create_style_id(content['class'])
-        if dfxp.find("style", {"xml:id": style_id}):
-            dfxp_style['style'] = style_id
+    style_ids = [
+        style_id for style_id in map(_create_style_id, _get_classes(content))
+        if dfxp.find("style", {"xml:id": style_id})]
+    if style_ids:
+        dfxp_style['style'] = ' '.join(style_ids)
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if 'italics' in content:
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index a5bd476..9e113d4 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -8,7 +8,7 @@ from bs4 import BeautifulSoup
 
 from .base import (
     DFXPWriter, DFXP_DEFAULT_REGION, _AttributeEscapingFormatter,
-    _create_style_id)
+    _create_style_id, _get_classes, _sort_styles)
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -105,7 +105,7 @@ class LegacyDFXPWriter(BaseWriter):
         dfxp = BeautifulSoup(LEGACY_DFXP_BASE_MARKUP, 'lxml-xml')
         dfxp.find('tt')['xml:lang'] = "en"
 
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in _sort_styles(caption_set.get_styles()):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
@@ -245,10 +245,12 @@ class LegacyDFXPWriter(BaseWriter):
         if 'region' in content:
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
-        if 'class' in content:
-            style_id = _create_style_id(content['class'])
-            if dfxp.find("style", {"xml:id": style_id}):
-                dfxp_style['style'] = style_id
+        style_ids = [
+            style_id
+            for style_id in map(_create_style_id, _get_classes(content))
+            if dfxp.find("style", {"xml:id": style_id})]
+        if style_ids:
+            dfxp_style['style'] = ' '.join(style_ids)
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if 'italics' in content:
-- 
2.43.0


From d5d12a4e80697848f5bab01d88bcb597176e3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 48/55] fix: SAMI output closes a span only once

---
 pycaption/sami.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 2e426fb..748cc6a 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -613,6 +613,7 @@ class SAMIWriter(BaseWriter):
         if node.start:
             if self.open_span:
                 line = line.rstrip() + '</span> '
+                self.open_span = False
             line = self._recreate_span(line, node.content)
         else:
             if self.open_span:
-- 
2.43.0


From c8c2cc3ca4e432626646706b889d621c24f2f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:53 +0000
Subject: [PATCH 49/55] fix: SAMI inline styles with blanks or capitals in a
 property name

---
 pycaption/sami.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 748cc6a..beebdc4 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -327,7 +327,8 @@ class SAMIReader(BaseReader):
         for style in styles:
             style = style.split(':')
             if len(style) == 2:
-                css_property, value = style
+                css_property = style[0].strip().lower()
+                value = style[1]
             else:
                 continue
             if css_property == 'text-align':
-- 
2.43.0


From 21e98ceb1f710c9e4417e9aff5e36f575dcfb64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 50/55] fix: SAMI spans with several classes

---
 pycaption/sami.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index beebdc4..eab41c6 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -314,8 +314,12 @@ class SAMIReader(BaseReader):
 
         if 'class' in css_attrs:
             attrs['class'] = css_attrs['class'][0].lower()
+            if len(css_attrs['class']) > 1:
+                attrs['classes'] = [
+                    name.lower() for name in css_attrs['class']]
         if 'id' in css_attrs:
             attrs['class'] = css_attrs['id'].lower()
+            attrs.pop('classes', None)
         if 'style' in css_attrs:
             styles = css_attrs['style'].split(';')
             attrs.update(self._translate_style(attrs, styles))
@@ -626,7 +630,9 @@ class SAMIWriter(BaseWriter):
     def _recreate_span(self, line, content):
         style = ''
         klass = ''
-        if 'class' in content:
+        if content.get('classes'):
+            klass += f' class="{" ".join(content["classes"])}"'
+        elif 'class' in content:
             klass += f' class="{content["class"]}"'
 
         for attr, value in list(self._recreate_style(content).items()):
-- 
2.43.0


From edb17558ecddaac76d53822eb71b2f021fcd7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 51/55] fix: SAMI output of styles that refer to other styles

---
 pycaption/sami.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index eab41c6..982bbaf 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -547,7 +547,7 @@ class SAMIWriter(BaseWriter):
                 layout_info = (caption_set.get_layout_info(value.get('lang'))
                                or caption_set.layout_info)
                 stylesheet += self._recreate_style_block(
-                    attr, value, layout_info)
+                    attr, self._inherit_rules(attr, caption_set), layout_info)
 
         declared = {
             rules.get('lang') for _, rules in caption_set.get_styles()}
@@ -565,6 +565,21 @@ class SAMIWriter(BaseWriter):
 
         return stylesheet + '   -->'
 
+    def _inherit_rules(self, name, caption_set, inheriting=()):
+        """
+        A CSS class can't refer to another one: get the rules of a style along
+        with those of the styles that it refers to.
+        """
+        rules = caption_set.get_style(name)
+        inherited = {}
+        for parent in rules.get('classes') or [rules.get('class')]:
+            if parent not in (None, name, *inheriting):
+                inherited.update(self._inherit_rules(
+                    parent, caption_set, (name, *inheriting)))
+        for key in ('lang', 'class', 'classes'):
+            inherited.pop(key, None)
+        return {**inherited, **rules}
+
     def _recreate_style_block(self, target, rules, layout_info):
         """
         :param target: A unicode string representing the target of the styling
-- 
2.43.0


From c7dba49a005c182f7f45fc0cc6a73ff1b9249b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 52/55] fix: SAMI style keywords in capitals

---
 pycaption/sami.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 982bbaf..9b84a9a 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -352,15 +352,16 @@ class SAMIReader(BaseReader):
         return attrs
 
     def _translate_css_property(self, attrs, css_property, value):
+        keyword = value.strip().lower()
         if css_property == 'font-family':
             attrs['font-family'] = value.strip()
         elif css_property == 'font-size':
             attrs['font-size'] = value.strip()
-        elif css_property == 'font-style' and value.strip() == 'italic':
+        elif css_property == 'font-style' and keyword == 'italic':
             attrs['italics'] = True
-        elif css_property == 'text-decoration' and value.strip() == 'underline':
+        elif css_property == 'text-decoration' and keyword == 'underline':
             attrs['underline'] = True
-        elif css_property == 'font-weight' and value.strip() == 'bold':
+        elif css_property == 'font-weight' and keyword == 'bold':
             attrs['bold'] = True
         elif css_property == 'lang':
             attrs['lang'] = value.strip()
-- 
2.43.0


From 7ce850ad35d5b79ce36249e446a99f0f87dbafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 53/55] fix: attribute values with quotes and ampersands in
 SAMI

---
 pycaption/sami.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 9b84a9a..f6c5ee7 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -464,9 +464,10 @@ class SAMIWriter(BaseWriter):
         for attr, value in list(self._recreate_style(caption.style).items()):
             p_style += f'{attr}:{value};'
         if p_style:
-            p['p_style'] = p_style
+            p['p_style'] = self._encode_attribute(p_style)
 
-        p['class'] = self._recreate_p_lang(caption, lang, captions)
+        p['class'] = self._encode_attribute(
+            self._recreate_p_lang(caption, lang, captions))
         p.string = self._recreate_text(caption.nodes)
 
         sync.append(p)
@@ -516,7 +517,8 @@ class SAMIWriter(BaseWriter):
         sami, sync = self._recreate_sync(sami, lang, primary, self.last_time)
 
         p = sami.new_tag("p")
-        p['class'] = self._recreate_p_lang(caption, lang, captions)
+        p['class'] = self._encode_attribute(
+            self._recreate_p_lang(caption, lang, captions))
         p.string = '&nbsp;'
 
         sync.append(p)
@@ -646,17 +648,16 @@ class SAMIWriter(BaseWriter):
     def _recreate_span(self, line, content):
         style = ''
         klass = ''
-        if content.get('classes'):
-            klass += f' class="{" ".join(content["classes"])}"'
-        elif 'class' in content:
-            klass += f' class="{content["class"]}"'
+        classes = content.get('classes') or [content.get('class')]
+        if classes != [None]:
+            klass = f' class="{self._encode_attribute(" ".join(classes))}"'
 
         for attr, value in list(self._recreate_style(content).items()):
             style += f'{attr}:{value};'
 
         if style or klass:
             if style:
-                style = f' style="{style}"'
+                style = f' style="{self._encode_attribute(style)}"'
             line += f'<span{klass}{style}>'
             self.open_span = True
 
@@ -689,6 +690,13 @@ class SAMIWriter(BaseWriter):
         """
         return escape(s)
 
+    def _encode_attribute(self, s):
+        """
+        Encodes a plain unicode string to be the value of an attribute.
+        :type s: str
+        """
+        return escape(s, {'"': '&quot;'})
+
 
 class SAMIParser(HTMLParser):
     def __init__(self, *args, **kw):
@@ -742,6 +750,7 @@ class SAMIParser(HTMLParser):
             self.queue.append(tag)
             # add tag with attributes
             for attr, value in attrs:
+                value = escape(value or '', {'"': '&quot;'})
                 tag += f' {attr.lower()}="{value}"'
             self.sami += f"<{tag}>"
 
-- 
2.43.0


From 5f1fb05777d3f7d266bfb5b4cc3f8bfcf2d470f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 54/55] fix: left padding reduces the WebVTT cue width without
 an origin

---
 pycaption/webvtt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 8c6df83..5abaae3 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -346,7 +346,7 @@ class WebVTTWriter(BaseWriter):
             cue_width = layout.extent.horizontal
 
         if layout.padding:
-            if layout.padding.start and left_offset:
+            if layout.padding.start:
                 # Since there is no padding in WebVTT, the left padding is
                 # added to the total left offset (if it is defined and not
                 # relative),
-- 
2.43.0


From 27374d7107212a228f87aa0edabee675dfa9c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:47 +0000
Subject: [PATCH 55/55] fix: styles with italics switched off in DFXP

---
 pycaption/dfxp/base.py   | 2 +-
 pycaption/dfxp/extras.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 31386c8..71c44b5 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1305,7 +1305,7 @@ def _recreate_style(content, dfxp):
         dfxp_style['style'] = ' '.join(style_ids)
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
-    if 'italics' in content:
+    if content.get('italics'):
         dfxp_style['tts:fontStyle'] = 'italic'
     if 'font-family' in content:
         dfxp_style['tts:fontFamily'] = content['font-family']
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 9e113d4..e51e2ae 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -253,7 +253,7 @@ class LegacyDFXPWriter(BaseWriter):
             dfxp_style['style'] = ' '.join(style_ids)
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
-        if 'italics' in content:
+        if content.get('italics'):
             dfxp_style['tts:fontStyle'] = 'italic'
         if 'font-family' in content:
             dfxp_style['tts:fontFamily'] = content['font-family']
-- 
2.43.0

