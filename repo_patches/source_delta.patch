From 956c3fa2ac415feae841c63eeb131d40feb60041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:38 +0000
Subject: [PATCH 01/30] fix: keep the hashes of a heading text made only of
 hashes

---
 md_toc/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index a4f13ad..5bfb3f5 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1253,6 +1253,11 @@ def get_atx_heading(
                     if i > hash_round_start:
                         hash_char_rounds += 1
 
+            # The text starts with hashes: only the last group of hashes
+            # is the closing sequence.
+            if go and hash_char_rounds > 1:
+                cs_end = len_subl - hash_round_start
+
             final_line = subl[cs_start:cs_end]
 
             # Add escaping.
-- 
2.43.0


From 7e390e061dfa6f6b93894490ccbaf75b46a92982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:40 +0000
Subject: [PATCH 02/30] fix: last line of an unclosed code fence is not a
 heading

---
 md_toc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 5bfb3f5..311ffc5 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -321,6 +321,7 @@ def build_toc(
             f.seek(file_pointer_pos)
 
         # Code fence detection.
+        was_within_code_fence = is_within_code_fence
         if is_within_code_fence:
             is_within_code_fence = not is_closing_code_fence(
                 line,
@@ -334,7 +335,8 @@ def build_toc(
                 # Update the status of the next line.
                 is_within_code_fence = True
 
-        if not is_within_code_fence or code_fence is None:
+        # The last line of an unclosed code fence is still part of it.
+        if not was_within_code_fence and not is_within_code_fence:
 
             # Header detection and gathering.
             headers: list[types.Header] = get_md_header(
-- 
2.43.0


From 8acf7255062052fd15b90e4b486b126d12037d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:42 +0000
Subject: [PATCH 03/30] fix: report binary files also when lines are skipped

---
 md_toc/api.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 311ffc5..4e091ed 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -278,15 +278,15 @@ def build_toc(
         list_marker = md_parser[parser]['list']['ordered'][
             'default_closing_marker']
 
-    if skip_lines > 0:
-        loop: bool = True
-        line_counter = 1
-        while loop:
-            if line_counter > skip_lines or f.readline() == '':
-                loop = False
-            line_counter += 1
-
     try:
+        if skip_lines > 0:
+            loop: bool = True
+            line_counter = 1
+            while loop:
+                if line_counter > skip_lines or f.readline() == '':
+                    loop = False
+                line_counter += 1
+
         line = f.readline()
     except UnicodeDecodeError:
         return ''.join(
-- 
2.43.0


From d2ebd56c9badb479db95d63d36b2f44a8e34be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:43 +0000
Subject: [PATCH 04/30] fix: heading visibility of a line does not depend on
 previous lines

---
 md_toc/api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 4e091ed..87bbaa1 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1125,8 +1125,6 @@ def get_atx_heading(
         raise ValueError
 
     struct: list[types.AtxHeadingStructElement] = list()
-    line_visible: bool = True
-
     if len(line) == 0:
         return [{
             'header_type': None,
@@ -1137,6 +1135,7 @@ def get_atx_heading(
     for subl in replace_and_split_newlines(line):
         current_headers = None
         final_line = None
+        line_visible: bool = True
 
         if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
 
@@ -1171,7 +1170,7 @@ def get_atx_heading(
             # We need to continue parsing to find possible duplicate headers
             # in other functions if we set keep_header_levels < max_levels.
             if i - offset > keep_header_levels:
-                line_visible: bool = False
+                line_visible = False
 
             current_headers = i - offset
 
-- 
2.43.0


From a9ae13449683f86464a42f30032799a5d0542952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:45 +0000
Subject: [PATCH 05/30] fix: redcarpet honours the maximum header level

---
 md_toc/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 87bbaa1..60b6ee8 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1318,6 +1318,8 @@ def get_atx_heading(
                    and subl[i] == '#'):
                 i += 1
             current_headers = i
+            if current_headers > keep_header_levels:
+                line_visible = False
 
             if i < len(subl) and subl[i] != ' ':
                 continue
-- 
2.43.0


From ba61215119b6d2f6ceb222787e7db1a0e55e9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 06/30] fix: goldmark ordered list marker overflow

---
 md_toc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 60b6ee8..d0bd1f9 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -548,7 +548,7 @@ def increase_index_ordered_list(
 
     header_type_count['h' + str(header_type_curr)] += 1
 
-    if parser in ['github', 'cmark', 'gitlab', 'commonmarker']:
+    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
         if header_type_count['h' + str(header_type_curr)] > md_parser[
                 'github']['list']['ordered']['max_marker_number']:
             raise GithubOverflowOrderedListMarker
-- 
2.43.0


From e2f23d379a94edd70301acb894f1d93b635a097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:48 +0000
Subject: [PATCH 07/30] fix: off by one in the special characters lookup

---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index d61b571..e116ac5 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2045,8 +2045,8 @@ def _cmark_subject_find_special_char(subj: _cmarkSubject, options: int) -> int:
         # Patch to avoid overflow problems.
         # FIXME: this should not be needed!
         # These two are not present in the original C source code.
-        if (ord(subj.input.data[n]) > len(SPECIAL_CHARS)
-                or ord(subj.input.data[n]) > len(SMART_PUNCT_CHARS)):
+        if (ord(subj.input.data[n]) >= len(SPECIAL_CHARS)
+                or ord(subj.input.data[n]) >= len(SMART_PUNCT_CHARS)):
             return n
 
         if SPECIAL_CHARS[ord(subj.input.data[n])] == 1:
-- 
2.43.0


From 787adacb606906a56e3ca28223ccad754a2caca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:49 +0000
Subject: [PATCH 08/30] fix: link label scanning in headings

---
 md_toc/cmark/inlines_c.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index e116ac5..ddb6fc6 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1230,7 +1230,7 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
         return 0
 
     c = chr(_cmark_peek_char(subj))
-    while c and c != '[' and c != ']':
+    while c != '\u0000' and c != '[' and c != ']':
         if c == '\\':
             _cmark_advance(subj)
             length += 1
@@ -1242,10 +1242,11 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
             length += 1
 
         # MAX_LINK_LABEL_LENGTH is defined as 1000 while
-        # parser['cmark']['link']['max chars label'] is defined as 999.
+        # parser['cmark']['link']['max_chars_label'] is defined as 999.
         #     if (length > MAX_LINK_LABEL_LENGTH) {
-        if length > md_parser['cmark']['link']['max chars label'] + 1:
+        if length > md_parser['cmark']['link']['max_chars_label'] + 1:
             no_match = True
+            break
 
         c = chr(_cmark_peek_char(subj))
 
-- 
2.43.0


From 1870da09a3a621d5a68f41423b64e15ae6774198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:51 +0000
Subject: [PATCH 09/30] fix: unterminated inline link at the end of a heading

---
 md_toc/cmark/inlines_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index ddb6fc6..2f6182e 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1403,7 +1403,8 @@ def _cmark_handle_close_bracket(subj: _cmarkSubject,
 
         endall = endtitle + _cmark_scan_spacechars(subj.input, endtitle)
 
-        if chr(_cmark_peek_at(subj, endall)) == ')':
+        if (endall < subj.input.length
+                and chr(_cmark_peek_at(subj, endall)) == ')'):
             subj.pos = endall + 1
 
             title_chunk = _cmark_cmark_chunk_dup(subj.input, starttitle,
-- 
2.43.0


From e72322190ccf4b9df2c94a7d00a6294302b145fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:16 +0000
Subject: [PATCH 10/30] fix: newlines of the table of contents written in place

---
 md_toc/api.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index d0bd1f9..8fd7701 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -92,10 +92,12 @@ def write_string_on_file_between_markers(
     if filename == '-':
         raise StdinIsNotAFileToBeWritten
 
-    # TOC that is written to the file.
+    # TOC that is written to the file. The line feeds are translated to
+    # newline_string while writing.
+    string = string.replace('\r\n', '\n').replace('\r', '\n')
     final_toc_string: str = ''.join([
-        marker, newline_string, newline_string,
-        string.rstrip(), newline_string, newline_string, marker, newline_string
+        marker, '\n', '\n',
+        string.rstrip(), '\n', '\n', marker, '\n'
     ])
 
     (
-- 
2.43.0


From 1fa85391caffe9f3ad775a6a01aa39cf9644e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:17 +0000
Subject: [PATCH 11/30] fix: compare tables of contents regardless of the
 newline string

---
 md_toc/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 8fd7701..b6b7660 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -61,6 +61,8 @@ def tocs_equal(current_toc: str, filename: str, marker: str) -> bool:
     tocs_equal: bool = False
     r: tuple = generic._get_existing_toc(filename, marker)
     old_toc: str = r[0]
+    # The existing TOC is read with universal newlines.
+    current_toc = current_toc.replace('\r\n', '\n').replace('\r', '\n')
     if current_toc.strip() == old_toc:
         tocs_equal = True
     return tocs_equal
-- 
2.43.0


From 34e3b0fa397aab95ac184d1e1baf0eea8f169c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:12 +0000
Subject: [PATCH 12/30] fix: a label made of mixed whitespace characters is
 empty

---
 md_toc/api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index b6b7660..2bcb391 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1270,9 +1270,8 @@ def get_atx_heading(
                 if len(final_line) > 0 and final_line[-1] == '\u005c':
                     final_line = ''.join([final_line, ' '])
                 if len(
-                        final_line.strip('\u0020').strip('\u0009').strip(
-                            '\u000a').strip('\u000b').strip('\u000c').strip(
-                                '\u000d'), ) == 0:
+                        final_line.strip(
+                            '\u0020\u0009\u000a\u000b\u000c\u000d'), ) == 0:
                     raise GithubEmptyLinkLabel
                 if len(final_line,
                        ) > md_parser['github']['link']['max_chars_label']:
-- 
2.43.0


From b5e6bc6dacf885d67b37527718873d3854bf695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:42 +0000
Subject: [PATCH 13/30] fix: emphasis delimiters used both as closer and as
 opener

---
 md_toc/cmark/inlines_c.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 2f6182e..cfdf904 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1018,15 +1018,16 @@ def _cmark_remove_emph(subj: _cmarkSubject, opener: _cmarkDelimiter,
     #############
 
     # Custom variables and computations.
-    opener_relative_start = opener_inl.end_column - use_delims - opener.offset
-    opener_relative_end = opener_inl.end_column - opener.offset
+    # An opener is consumed from its right side. The offset counts the
+    # characters already consumed from the left side, as a closer.
+    opener_relative_start = opener_inl.start_column + opener.offset + opener_num_chars - 1
+    opener_relative_end = opener_relative_start + use_delims
     closer_relative_start = closer_inl.start_column + closer.offset - 1
     closer_relative_end = closer_inl.start_column + use_delims + closer.offset - 1
 
     ignore.append(range(opener_relative_start, opener_relative_end))
     ignore.append(range(closer_relative_start, closer_relative_end))
 
-    opener.offset += use_delims
     closer.offset += use_delims
 
     # if opener has 0 characters, remove it and its associated inline
-- 
2.43.0


From 1c8472c4dbb8ca4ede0c9f7ef8029acd23371a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:41 +0000
Subject: [PATCH 14/30] fix: HTML comments of one character or containing a
 greater-than sign

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index f624ce3..9f87f35 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -120,7 +120,7 @@ parser: dict = {
 
             # 3. HTML comment.
             'COS': '<!--',
-            'COT': '((?!>|->)(?:(?!--).))+(?!-).?',
+            'COT': '(?!>|->)(?:(?!--).)*',
             'COE': '-->',
 
             # 4. Processing instructions.
-- 
2.43.0


From 4f3004f27694852a022b7d9416e5dc90e6b2c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:03 +0000
Subject: [PATCH 15/30] fix: remove HTML constructs in a single pass

---
 md_toc/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 2bcb391..0e3ed30 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -830,8 +830,8 @@ def remove_html_tags(line: str, parser: str = 'github') -> str:
             md_parser[parser]['re']['DE'], md_parser[parser]['re']['CD']
         ]
 
-        for r in regexes:
-            line = re.sub(r, '', line, flags=re.DOTALL)
+        # A single pass is needed: the content of a construct is not markup.
+        line = re.sub('|'.join(regexes), '', line, flags=re.DOTALL)
 
     return line
 
-- 
2.43.0


From 0d8b397651d2656dadb2f906c0886c48f167c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 16/30] fix: HTML declarations and CDATA sections in anchors

---
 md_toc/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 0e3ed30..b006b70 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -975,11 +975,11 @@ def build_anchor_link(
         raise StringCannotContainNewlines
 
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
-        header_text_trimmed = header_text_trimmed.lower()
-
-        # Filter HTML tags.
+        # Filter HTML tags. Some of these are case sensitive.
         header_text_trimmed = remove_html_tags(header_text_trimmed, parser)
 
+        header_text_trimmed = header_text_trimmed.lower()
+
         # Filter "emphasis and strong emphasis".
         header_text_trimmed = remove_emphasis(header_text_trimmed, parser)
 
-- 
2.43.0


From 6066fe5fb08e8534177dc1afeb3ff7b25e7b5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 17/30] fix: standard input is left open after reading it

---
 md_toc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index b006b70..4da1f83 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -437,7 +437,9 @@ def build_toc(
 
     # endwhile
 
-    f.close()
+    # stdin belongs to the caller.
+    if filename != '-':
+        f.close()
 
     return ''.join(toc)
 
-- 
2.43.0


From e1ff432454243cbefd8ddfbc2af4907df0b071a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 18/30] fix: a run after U+0080..U+00BF is judged by the wrong
 character

The walk back over the continuation bytes of an UTF-8 sequence skipped the
characters U+0080 to U+00BF, such as the no-break space.
---
 md_toc/cmark/inlines_c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index cfdf904..2f4274f 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -641,11 +641,9 @@ def _cmark_scan_delims(subj: _cmarkSubject, c: str) -> tuple:
     if subj.pos == 0:
         before_char = 10
     else:
+        # In Python 3 a character is never a sequence of bytes: there is no
+        # beginning of an UTF-8 sequence to walk back to.
         before_char_pos = subj.pos - 1
-        # walk back to the beginning of the UTF_8 sequence
-        while _cmark_peek_at(
-                subj, before_char_pos) >> 6 == 2 and before_char_pos > 0:
-            before_char_pos -= 1
 
         length, before_char = _cmark_cmark_utf8proc_iterate(
             subj.input.data[before_char_pos:],
-- 
2.43.0


From 27b0ba4387aeeaf2c78ead296b764947838230f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:06 +0000
Subject: [PATCH 19/30] fix: underscores after an unmatched run are not taken
 as emphasis

The lower bound for the search of an opener was shared by all the runs of
underscores. According to CommonMark it depends on the length of the closing
run and on whether this can also open emphasis.
---
 md_toc/cmark/inlines_c.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 2f4274f..697cbd6 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -864,17 +864,7 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
     old_closer: _cmarkDelimiter
     opener_found: bool
     openers_bottom_index: int = 0
-    openers_bottom: list = [
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-    ]
+    openers_bottom: list = [stack_bottom] * 14
 
     # move back to first relevant delim.
     while closer is not None and closer.previous is not stack_bottom:
@@ -887,10 +877,11 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
                 openers_bottom_index = 0
             elif closer.delim_char == '\'':
                 openers_bottom_index = 1
-            elif closer.delim_char == '_':
-                openers_bottom_index = 2
-            elif closer.delim_char == '*':
-                openers_bottom_index = 3
+            elif closer.delim_char in ['_', '*']:
+                if closer.delim_char == '_':
+                    openers_bottom_index = 2
+                else:
+                    openers_bottom_index = 8
                 if closer.can_open:
                     openers_bottom_index += 3
                 else:
-- 
2.43.0


From a0d061e420400266c8aa319d9d46cf8fd049e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:06 +0000
Subject: [PATCH 20/30] fix: redcarpet labels end in a backslash if blanks or
 hashes follow it

The backslash escaped the closing square bracket of the label.
---
 md_toc/api.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 4da1f83..649ff01 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1343,12 +1343,11 @@ def get_atx_heading(
                 end -= 1
 
             if end > i:
-                final_line = subl
-                if not no_links and len(
-                        final_line) > 0 and final_line[-1] == '\\':
+                final_line = subl[i:end]
+                # Do not escape the closing square bracket of the label.
+                escapes = len(final_line) - len(final_line.rstrip('\\'))
+                if not no_links and (subl[-1] == '\\' or escapes % 2 == 1):
                     final_line += ' '
-                    end += 1
-                final_line = final_line[i:end]
 
             if final_line is None:
                 current_headers = None
-- 
2.43.0


From 2511010bd81b7df454f8475036264b8853489862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:18 +0000
Subject: [PATCH 21/30] fix: closing tags with more than one blank before the
 end (github)

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 9f87f35..0609079 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -273,7 +273,7 @@ parser['github']['re'].update({
      ')*' + '(' + parser['github']['re']['WS'] + ')*' + '(/)?' + '>'),
     # 2. Close tag.
     'CT': ('</' + parser['github']['re']['TN'] + parser['github']['re']['WS'] +
-           '?' + '>'),
+           '*' + '>'),
     # 5. Declarations.
     'DE': (parser['github']['re']['DES'] + parser['github']['re']['DEN'] +
            parser['github']['re']['DEW'] + parser['github']['re']['DEB'] +
-- 
2.43.0


From b655ab408c2596dca22dbe14f7ca00fc4343b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:18 +0000
Subject: [PATCH 22/30] fix: empty CDATA sections in anchors

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 0609079..be54d83 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -138,7 +138,7 @@ parser: dict = {
             # Section.
             'CDS': r'<!\[CDATA\[',
             # Body.
-            'CDB': r'(?:(?!\]\]>).)+',
+            'CDB': r'(?:(?!\]\]>).)*',
             # End.
             'CDE': r'\]\]>',
 
-- 
2.43.0


From 9a2bb6b526cf097ee7e53dea44d54f3ccf95ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:18 +0000
Subject: [PATCH 23/30] fix: tags whose name starts with a disallowed one and a
 hyphen (github)

---
 md_toc/constants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index be54d83..e3f5a36 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -262,7 +262,8 @@ parser['github']['re'].update({
 })
 
 parser['github']['re'].update({
-    'TN': ('(?!' + parser['github']['re']['GDRH'] + ')' +
+    # A longer tag name, such as title-x, is allowed.
+    'TN': ('(?!' + parser['github']['re']['GDRH'] + '(?!-))' +
            parser['github']['re']['TN']),
 })
 
-- 
2.43.0


From cee1c5eb8852570c50ce2d9e5f18d08f12b8f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:14 +0000
Subject: [PATCH 24/30] fix: IndexError on a link destination that ends in a
 backslash

---
 md_toc/cmark/buffer_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/buffer_c.py b/md_toc/cmark/buffer_c.py
index fe71de4..c065e8c 100644
--- a/md_toc/cmark/buffer_c.py
+++ b/md_toc/cmark/buffer_c.py
@@ -330,7 +330,8 @@ def _cmark_cmark_strbuf_unescape(buf: _cmarkCmarkStrbuf):
     #     while r < len(buf.ptr)
     #
     while r < len(buf.ptr):
-        if buf.ptr[r] == '\\' and _cmark_cmark_ispunct(ord(buf.ptr[r + 1])):
+        if (buf.ptr[r] == '\\' and r + 1 < len(buf.ptr)
+                and _cmark_cmark_ispunct(ord(buf.ptr[r + 1]))):
             r += 1
 
         #     buf->ptr[w+] = buf->ptr[r];
-- 
2.43.0


From 1c7d7f0d8f4b3c1d5cb522c25dbc0f41dccd8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:14 +0000
Subject: [PATCH 25/30] fix: URI autolinks need a scheme

---
 md_toc/cmark/scanners_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index b40d7c9..9fef527 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -113,7 +113,8 @@ def _cmark__scan_spacechars(ptr: str, p: int) -> int:
 
 # Try to match URI autolink after first <, returning number of chars matched.
 def _cmark__scan_autolink_uri(ptr: str, p: int) -> int:
-    return _common_scan('[:][^\x00-\x20<>]*[>]', ptr, p)
+    return _common_scan(
+        '[A-Za-z][A-Za-z0-9.+-]{1,31}[:][^\x00-\x20<>]*[>]', ptr, p)
 
 
 # Try to match email autolink after first <, returning num of chars matched.
-- 
2.43.0


From a0a62a042e424d745ba94bb6af20156a2012c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:14 +0000
Subject: [PATCH 26/30] fix: the opening of an image was read as the one of a
 link

---
 md_toc/cmark/inlines_c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 697cbd6..07c78fd 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2094,7 +2094,7 @@ def _cmark_parse_inline(subj: _cmarkSubject,
         _cmark_handle_close_bracket(subj, ignore)
     elif chr(c) in ['!']:
         _cmark_advance(subj)
-        if _cmark_peek_char(subj) == '[':
+        if chr(_cmark_peek_char(subj)) == '[':
             _cmark_advance(subj)
             new_inl = _cmark_make_str(subj, subj.pos - 2, subj.pos - 1,
                                       _cmark_cmark_chunk_literal('!['))
-- 
2.43.0


From 75fe10e04512858ddb74ef5f7dcd16566e502cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:14 +0000
Subject: [PATCH 27/30] fix: HTML attributes without a value in inline tags

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index e3f5a36..7d00fa7 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -55,7 +55,7 @@ __cmark_singlequotedvalue = "(['][^'\x00]*['])"
 __cmark_doublequotedvalue = '(["][^"\x00]*["])'
 __cmark_attributevalue = '(' + __cmark_unquotedvalue + '|' + __cmark_singlequotedvalue + '|' + __cmark_doublequotedvalue + ')'
 __cmark_attributevaluespec = __cmark_spacechar + '*[=]' + __cmark_spacechar + '*' + __cmark_attributevalue
-__cmark_attribute = '(' + __cmark_spacechar + '+' + __cmark_attributename + __cmark_attributevaluespec + '?)'
+__cmark_attribute = '(' + __cmark_spacechar + '+' + __cmark_attributename + '(' + __cmark_attributevaluespec + ')?)'
 __cmark_opentag = __cmark_tagname + __cmark_attribute + '*' + __cmark_spacechar + '*[/]?[>]'
 __cmark_closetag = '[/]' + __cmark_tagname + __cmark_spacechar + '*[>]'
 
-- 
2.43.0


From 0881c28137d04d4f258e0afb49c23cb6e7e43c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:16 +0000
Subject: [PATCH 28/30] fix: link titles in parentheses

---
 md_toc/cmark/scanners_c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index 9fef527..aff6921 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -100,7 +100,7 @@ def _cmark__scan_link_title(ptr: str, p: int) -> int:
     r2 = "['](" + md_parser['cmark']['_scanners.re'][
         'escaped_char'] + "|[^'\u0000])*[']"
     r3 = r'[\(](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + r"|[^\(\)\u0000])*[']"
+        'escaped_char'] + r'|[^\(\)\u0000])*[\)]'
     r = '(' + r1 + '|' + r2 + '|' + r3 + ')'
     return _common_scan(r, ptr, p)
 
-- 
2.43.0


From 2d5120f931bc70fbd4d1c8d9092de09ef511bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:12 +0000
Subject: [PATCH 29/30] fix: escaped characters in link titles

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 7d00fa7..abcadfb 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -152,7 +152,7 @@ parser: dict = {
             # FIXME
             # Some of these expressions are a duplicate of parser['cmark']['re'] dicts.
             'spacechar': __cmark_spacechar,
-            'escaped_char': '([\\][!"#$%&\'()*+,./:;<=>?@[\\\\]^_`{|}~-])',
+            'escaped_char': '([\\\\][!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-])',
             'cdata': r'CDATA\[([^\]\x00]+|\][^\]\x00]|\]\][^>\x00])*',
             'htmltag': '(' + __cmark_opentag + '|' + __cmark_closetag + ')',
             'htmlcomment': '(--->|(-([-]?[^\x00>-])([-]?[^\x00-])*-->))',
-- 
2.43.0


From 5f16561db82862225b29f83064402ecd86a49bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:04 +0000
Subject: [PATCH 30/30] fix: only ASCII digits make numeric character
 references

---
 md_toc/cmark/houdini_html_u_c.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/md_toc/cmark/houdini_html_u_c.py b/md_toc/cmark/houdini_html_u_c.py
index 4bf4a69..d554917 100644
--- a/md_toc/cmark/houdini_html_u_c.py
+++ b/md_toc/cmark/houdini_html_u_c.py
@@ -82,10 +82,10 @@ def _cmark_houdini_unescape_ent(ob: _cmarkCmarkStrbuf, src: str,
         num_digits: int = 0
         max_digits: int = 7
 
-        if re.match(r'\d', src[1]):
+        if re.match(r'[0-9]', src[1]):
 
             i = 1
-            while i < size and re.match(r'\d', src[i]):
+            while i < size and re.match(r'[0-9]', src[i]):
                 codepoint = (codepoint * 10) + (ord(src[i]) - ord('0'))
 
                 if codepoint >= 0x110000:
@@ -100,7 +100,7 @@ def _cmark_houdini_unescape_ent(ob: _cmarkCmarkStrbuf, src: str,
 
         elif src[1] == 'x' or src[1] == 'X':
             i = 2
-            while i < size and re.match(r'[\dA-Fa-f]', src[i]):
+            while i < size and re.match(r'[0-9A-Fa-f]', src[i]):
                 codepoint = (codepoint * 16) + ((ord(src[i]) | 32) % 39 - 9)
 
                 if codepoint >= 0x110000:
-- 
2.43.0

