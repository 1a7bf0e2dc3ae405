From 95d32b104a7bc79d47934b490dd8c692c1b1db82 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 01/96] fix: end the text of a tight list item where a nested
 block starts

A heading, code block or HTML comment inside a tight list item was merged
with the text of the item in one message, and an empty save on entering
nested lists and quotes discarded pending commands.
---
 src/mdpo/md2po/__init__.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index be23928..0261a09 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -573,6 +573,11 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_block', self, block, details):
             return
 
+        if self._inside_liblock and self.current_msgid:
+            # the text of a tight list item is not wrapped by a paragraph
+            # block, so ends when other block starts inside the item
+            self._save_current_msgid()
+
         if block is md4c.BlockType.P:
             self._inside_pblock = True
             if not any([
@@ -595,16 +600,14 @@ class Md2Po:
         elif block is md4c.BlockType.LI:
             self._inside_liblock = True
         elif block is md4c.BlockType.UL:
-            self._uls_deep += 1
-            if self._uls_deep > 1 or self._inside_olblock:
-                # changing UL deeep
-                self._save_current_msgid()
-            elif not any([
+            if not any([
                 self._quoteblocks_deep,
+                self._uls_deep,
                 self._inside_olblock,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.UL.value
+            self._uls_deep += 1
         elif block is md4c.BlockType.H:
             self._inside_hblock = True
             if not any([
@@ -616,8 +619,6 @@ class Md2Po:
                 self._current_top_level_block_type = md4c.BlockType.H.value
         elif block is md4c.BlockType.QUOTE:
             self._quoteblocks_deep += 1
-            if self._inside_liblock:
-                self._save_current_msgid()
             if self._quoteblocks_deep == 1:
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.QUOTE.value
@@ -629,9 +630,6 @@ class Md2Po:
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.OL.value
-
-            if self._inside_olblock or self._uls_deep:
-                self._save_current_msgid()
             self._inside_olblock = True
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
-- 
2.43.0


From ee7c1e76543fe5273d6e71972a0c945eee53d11c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 02/96] fix: pending block commands are consumed by the same
 block in md2po and po2md

A horizontal rule, the end of a quote or a list, a nested list and a code
block not extracted consumed pending commands in only one of both programs,
as an included message did, so a message extracted with a context was not
found when translating.
---
 src/mdpo/md2po/__init__.py | 44 ++++++++++++++++++++++----------------
 src/mdpo/po2md/__init__.py | 17 +++++++++++----
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 0261a09..d182036 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -470,29 +470,35 @@ class Md2Po:
         ):
             return
 
-        if self.current_msgid:
-            if (not self.disable_next_block and not self.disable) or \
-                    self.enable_next_block:
-                self._save_msgid(
-                    self.current_msgid,
+        if not self.current_msgid:
+            # a block without text does not consume the pending commands
+            return
+
+        if (not self.disable_next_block and not self.disable) or \
+                self.enable_next_block:
+            self._save_msgid(
+                self.current_msgid,
+                msgstr=msgstr or self.msgstr,
+                msgctxt=self.current_msgctxt,
+                tcomment=self.current_tcomment,
+                fuzzy=fuzzy,
+            )
+        else:
+            self.disabled_entries.append(
+                polib.POEntry(
+                    msgid=self.current_msgid,
                     msgstr=msgstr or self.msgstr,
                     msgctxt=self.current_msgctxt,
                     tcomment=self.current_tcomment,
-                    fuzzy=fuzzy,
-                )
-            else:
-                self.disabled_entries.append(
-                    polib.POEntry(
-                        msgid=self.current_msgid,
-                        msgstr=msgstr or self.msgstr,
-                        msgctxt=self.current_msgctxt,
-                        tcomment=self.current_tcomment,
-                        flags=['fuzzy'] if fuzzy else [],
-                    ),
-                )
+                    flags=['fuzzy'] if fuzzy else [],
+                ),
+            )
+        self.current_msgid = ''
+        self._reset_next_block_state()
+
+    def _reset_next_block_state(self):
         self.disable_next_block = False
         self.enable_next_block = False
-        self.current_msgid = ''
         self.current_tcomment = None
         self.current_msgctxt = None
 
@@ -659,6 +665,7 @@ class Md2Po:
                 self.include_codeblocks or self.include_next_codeblock
             ):
                 self._save_current_msgid()
+            self._reset_next_block_state()
             self.include_next_codeblock = False
             self.disable_next_codeblock = False
         elif block is md4c.BlockType.HTML:
@@ -1004,6 +1011,7 @@ class Md2Po:
                 ),
                 self.text,
             )
+            self._reset_next_block_state()
             self._dump_link_references()
 
         if hasattr(self, 'content'):
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index efd1bdb..f852197 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -351,6 +351,9 @@ class Po2Md:
                 self.current_msgctxt = comment
             elif mdpo_command == 'mdpo-translator':
                 self.current_tcomment = comment
+            elif mdpo_command == 'mdpo-include':
+                # the included message consumes the pending commands
+                self._reset_next_block_state()
 
     def _process_command(self, text):
         original_command, comment = parse_mdpo_html_command(text)
@@ -408,6 +411,10 @@ class Po2Md:
         ):
             return
 
+        if not self.current_msgid and not self._inside_codeblock:
+            # a block without text does not consume the pending commands
+            return
+
         if (not self.disable and not self.disable_next_block) or \
                 self.enable_next_block:
             translation = self._translate_msgid(
@@ -463,15 +470,17 @@ class Po2Md:
             self.current_line += translation
 
         self.current_msgid = ''
+        self._reset_next_block_state()
+
+        self._codespan_inside_current_msgid = False
+        self._aimg_title_inside_current_msgid = False
+
+    def _reset_next_block_state(self):
         self.current_msgctxt = None
         self.current_tcomment = None
-
         self.disable_next_block = False
         self.enable_next_block = False
 
-        self._codespan_inside_current_msgid = False
-        self._aimg_title_inside_current_msgid = False
-
     def _save_current_line(self):
         # strip all spaces according to unicodedata database ignoring newlines,
         # see https://docs.python.org/3/library/stdtypes.html#str.splitlines
-- 
2.43.0


From 0a4ff012512426bc8988f9b63ea77a245c3f0bab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 03/96] fix: accept any character in the comments of mdpo
 commands

A command whose comment has other characters than letters, digits and
spaces was silently ignored.
---
 src/mdpo/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/command.py b/src/mdpo/command.py
index 2b24866..6629008 100644
--- a/src/mdpo/command.py
+++ b/src/mdpo/command.py
@@ -1,7 +1,7 @@
 """mdpo HTML commands related utilities."""
 
 
-COMMAND_SEARCH_REGEX = r'<\!\-\-\s{0,}([^\s]+)\s{0,}([\w\s]+)?\-\->'
+COMMAND_SEARCH_REGEX = r'<\!\-\-\s{0,}([^\s]+)\s{0,}(.+?)??\-\->'
 
 MDPO_COMMANDS = [
     'context',
@@ -34,7 +34,7 @@ def parse_mdpo_html_command(value):
         and its value.
     """
     import re
-    command_match = re.compile(COMMAND_SEARCH_REGEX).search(value)
+    command_match = re.compile(COMMAND_SEARCH_REGEX, re.DOTALL).search(value)
     if command_match:
         command, comment = command_match.groups()
         return (command, comment.rstrip(' ') if comment else None)
-- 
2.43.0


From c31f7723fdb15020b8cf1d6a45b341e3ea24c70f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 04/96] fix: write HTML blocks in po2md output as lines of
 their container

An HTML block at the end of the document was lost, one followed by a mdpo
command was glued to the next paragraph, those inside lists and quotes were
written without their prefix and comments with several words were dropped.
---
 src/mdpo/po2md/__init__.py | 50 +++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f852197..1625ca7 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -275,7 +275,8 @@ class Po2Md:
 
         self._inside_htmlblock = [
             False,  # the parser is inside an HTML block
-            None,  # a mdpo command has been found in the HTML block
+            '',  # content of the HTML block, without mdpo commands
+            False,  # the last text of the HTML block was a mdpo command
         ]
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
@@ -360,8 +361,6 @@ class Po2Md:
         if original_command is None:
             return False
 
-        self._inside_htmlblock[1] = True
-
         try:
             command = self.command_aliases[original_command]
         except KeyError:  # not custom command
@@ -370,7 +369,8 @@ class Po2Md:
         # process solved command
         self.command(command, comment, original_command)
 
-        return True
+        # HTML comments with other texts are part of the content
+        return command.startswith('mdpo-') or not comment
 
     def _escape_translation(self, text):
         if self._aimg_title_inside_current_msgid:
@@ -489,6 +489,28 @@ class Po2Md:
         )
         self.current_line = ''
 
+    def _save_html_content(self, content):
+        indent = '   ' * len(self._current_list_type)
+        if self._inside_quoteblock:
+            indent = f'> {indent}'
+        elif self._inside_liblock and self.current_msgid:
+            # text of a tight list item before the HTML block
+            self._save_current_msgid()
+            self._save_current_line()
+        if not self.current_line:
+            self.current_line = indent
+
+        first_line, *lines = content.split('\n')
+        self.current_line += first_line
+        self._save_current_line()
+        for line in lines:
+            self.current_line = f'{indent}{line}'
+            self._save_current_line()
+
+        if self._inside_quoteblock:
+            self.current_line = '>'
+        self._save_current_line()
+
     def enter_block(self, block, details):
         # raise 'enter_block' event
         if raise_skip_event(
@@ -595,7 +617,7 @@ class Po2Md:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
-            self._inside_htmlblock = [True, False]
+            self._inside_htmlblock = [True, '', False]
 
     def leave_block(self, block, details):
         # raise 'leave_block' event
@@ -712,11 +734,10 @@ class Po2Md:
                 self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
-            if not self._inside_htmlblock[1]:
-                self.current_line += '\n'
-            else:
-                self.current_line = self.current_line.rstrip('\n')
-            self._inside_htmlblock[0] = False
+            content = self._inside_htmlblock[1].strip('\n')
+            self._inside_htmlblock = [False, '', False]
+            if content:
+                self._save_html_content(content)
 
     def enter_span(self, span, details):
         # raise 'enter_span' event
@@ -939,8 +960,13 @@ class Po2Md:
                     if self.current_line[:len(indent) + 1] != indent:
                         self.current_line += indent
                 self.current_msgid += text
-        elif not self._process_command(text):
-            self.current_line += text
+        elif self._process_command(text):
+            self._inside_htmlblock[2] = True
+        else:
+            # the line of a mdpo command is removed
+            if not self._inside_htmlblock[2] or text != '\n':
+                self._inside_htmlblock[1] += text
+            self._inside_htmlblock[2] = False
 
     def _append_link_references(self):
         if self.link_references:
-- 
2.43.0


From 6c433ad32334c79c02e2b63d2975f5a83710d27c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 05/96] fix: keep strikethrough markup in po2md

The markers were lost in the output, and messages with them never matched
their translations.
---
 src/mdpo/po2md/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 1625ca7..58c855c 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -78,6 +78,8 @@ class Po2Md:
         'code_start_string_escaped',
         'code_end_string',
         'code_end_string_escaped',
+        'strikethrough_start_string',
+        'strikethrough_end_string',
         'wikilink_start_string',
         'wikilink_end_string',
         'latexmath_start_string',
@@ -240,6 +242,19 @@ class Po2Md:
             md4c.SpanType.CODE.value: self.code_end_string,
         }
 
+        if 'strikethrough' in self.extensions:
+            self.strikethrough_start_string = kwargs.get(
+                'strikethrough_start_string', '~~',
+            )
+            self.strikethrough_end_string = kwargs.get(
+                'strikethrough_end_string', '~~',
+            )
+
+            self._enterspan_replacer[md4c.SpanType.DEL.value] = \
+                self.strikethrough_start_string
+            self._leavespan_replacer[md4c.SpanType.DEL.value] = \
+                self.strikethrough_end_string
+
         self.wikilink_start_string = '[['
         self.wikilink_end_string = ']]'
 
-- 
2.43.0


From 7b3c2a06869bd446cf8d2191f3edf69d869d6f02 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 06/96] fix: keep the whole destination and title of links and
 images

Destinations and titles with entities were truncated, empty destinations
raised an exception, destinations with spaces or unbalanced parenthesis and
titles in several lines were not written as valid Markdown, and relative
links whose text is their destination were written as HTML tags.
---
 src/mdpo/md.py             | 59 +++++++++++++++++++++++++++++++++++
 src/mdpo/md2po/__init__.py | 45 ++++++++++++++-------------
 src/mdpo/po2md/__init__.py | 64 ++++++++++++++++++++------------------
 3 files changed, 116 insertions(+), 52 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 033fade..a35f6de 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -6,6 +6,65 @@ LINK_REFERENCE_REGEX = (
 )
 
 
+def attribute_text(attribute):
+    """Get the text of a MD4C attribute of a span, like a link destination.
+
+    MD4C splits the text of the attributes where an entity is found.
+
+    Args:
+        attribute (list): Attribute as is passed by MD4C, ``None`` if does
+            not exist or is empty.
+
+    Returns:
+        str: Text of the attribute.
+    """
+    return ''.join(text for _, text in attribute) if attribute else ''
+
+
+def is_autolink(text, href):
+    """Check if a link can be written as an autolink like ``<href>``.
+
+    Args:
+        text (str): Text of the link.
+        href (str): Destination of the link.
+
+    Returns:
+        bool: If the link is written in its shortest form as an autolink.
+    """
+    import re
+
+    return text == href and re.match(
+        r'[A-Za-z][A-Za-z0-9+.-]{1,31}:[^\s<>]*$',
+        href,
+    ) is not None
+
+
+def inline_link_target(href, title=''):
+    """Build the markup of the target of an inline link or image.
+
+    Args:
+        href (str): Destination of the link.
+        title (str): Title of the link.
+
+    Returns:
+        str: Target ready to be placed between parenthesis.
+    """
+    import polib
+
+    parens = 0
+    for ch in href:
+        parens += (ch == '(') - (ch == ')')
+        if parens < 0:
+            break
+    if ' ' in href or parens or (title and not href):
+        href = f'<{href}>'
+    if not title:
+        return href
+    for space in '\n\r\t':
+        title = title.replace(space, ' ')
+    return f'{href} "{polib.escape(title)}"'
+
+
 def parse_link_references(content):
     """Parses link references found in a Markdown content.
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d182036..7572a2e 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -18,7 +18,12 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_files_or_content,
 )
-from mdpo.md import parse_link_references
+from mdpo.md import (
+    attribute_text,
+    inline_link_target,
+    is_autolink,
+    parse_link_references,
+)
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
@@ -692,7 +697,7 @@ class Md2Po:
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
                 details['title']:
-            self._save_msgid(details['title'][0][1])
+            self._save_msgid(attribute_text(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
@@ -720,11 +725,11 @@ class Md2Po:
 
             self._inside_aspan = True
 
-            current_aspan_href = details['href'][0][1]
+            current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == current_aspan_href
@@ -750,9 +755,8 @@ class Md2Po:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['src'] = details['src'][0][1]
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
+            self._current_imgspan['src'] = attribute_text(details['src'])
+            self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
@@ -795,18 +799,18 @@ class Md2Po:
                     )
                 self._current_aspan_ref_target = None
             else:
-                title = details['title'][0][1] if details['title'] else ''
-                if self._current_aspan_text == details['href'][0][1]:
+                title = attribute_text(details['title'])
+                href = attribute_text(details['href'])
+                if is_autolink(self._current_aspan_text, href):
                     # autolink vs link clash (see implementation notes)
-                    self.current_msgid += f'<{self._current_aspan_text}'
+                    self.current_msgid += f'<{href}'
                     if title:
                         self.current_msgid += f' "{polib.escape(title)}"'
                     self.current_msgid += '>'
                 else:
-                    title_part = f' "{polib.escape(title)}"' if title else ''
-                    href = details['href'][0][1]
                     self.current_msgid += (
-                        f'[{self._current_aspan_text}]({href}{title_part})'
+                        f'[{self._current_aspan_text}]'
+                        f'({inline_link_target(href, title)})'
                     )
             self._inside_aspan = False
             self._current_aspan_text = ''
@@ -825,10 +829,10 @@ class Md2Po:
                 )
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
-            referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
-            if details['title']:
-                imgspan_title = details['title'][0][1]
+            referenced_target = None
+            imgspan_src = attribute_text(details['src'])
+            imgspan_title = attribute_text(details['title'])
+            if imgspan_title:
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
@@ -844,10 +848,9 @@ class Md2Po:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
-                if imgspan_title:
-                    img_markup += f' "{polib.escape(imgspan_title)}"'
-                img_markup += ')'
+                img_markup += (
+                    f'({inline_link_target(imgspan_src, imgspan_title)})'
+                )
 
             self._current_imgspan = {}
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 58c855c..0eb7d57 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -12,7 +12,12 @@ from mdpo.command import (
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import parse_link_references
+from mdpo.md import (
+    attribute_text,
+    inline_link_target,
+    is_autolink,
+    parse_link_references,
+)
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
@@ -777,11 +782,11 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_aspan_href = details['href'][0][1]
+            self._current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == self._current_aspan_href
@@ -802,9 +807,8 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
-            self._current_imgspan['src'] = details['src'][0][1]
+            self._current_imgspan['title'] = attribute_text(details['title'])
+            self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = details['target'][0][1]
@@ -845,23 +849,22 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif self._current_aspan_text == self._current_aspan_href:
-                # autolink vs link clash (see implementation notes)
-                self.current_msgid += f'<{self._current_aspan_text}'
-                if details['title']:
-                    escaped_title = polib.escape(details['title'][0][1])
-                    self.current_msgid += f' "{escaped_title}"'
-                self.current_msgid += '>'
-            elif self._current_aspan_href:
-                self.current_msgid += (
-                    f'[{self._current_aspan_text}]'
-                    f'({self._current_aspan_href}'
-                )
-                if details['title']:
-                    self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(details['title'][0][1])
-                    self.current_msgid += f' "{escaped_title}"'
-                self.current_msgid += ')'
+            else:
+                title = attribute_text(details['title'])
+                href = self._current_aspan_href
+                if is_autolink(self._current_aspan_text, href):
+                    # autolink vs link clash (see implementation notes)
+                    self.current_msgid += f'<{href}'
+                    if title:
+                        self.current_msgid += f' "{polib.escape(title)}"'
+                    self.current_msgid += '>'
+                else:
+                    if title:
+                        self._aimg_title_inside_current_msgid = True
+                    self.current_msgid += (
+                        f'[{self._current_aspan_text}]'
+                        f'({inline_link_target(href, title)})'
+                    )
             self._current_aspan_href = None
             self._inside_aspan = False
             self._current_aspan_text = ''
@@ -872,10 +875,10 @@ class Po2Md:
             )
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
-            referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
-            if details['title']:
-                imgspan_title = polib.escape(details['title'][0][1])
+            referenced_target = None
+            imgspan_src = attribute_text(details['src'])
+            imgspan_title = attribute_text(details['title'])
+            if imgspan_title:
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
@@ -891,10 +894,9 @@ class Po2Md:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
-                if imgspan_title:
-                    img_markup += f' "{imgspan_title}"'
-                img_markup += ')'
+                img_markup += (
+                    f'({inline_link_target(imgspan_src, imgspan_title)})'
+                )
 
             if self._inside_aspan:
                 self._current_aspan_text += img_markup
-- 
2.43.0


From 223ceeed27913db7c4432465bdb3dd31d7d8958f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 07/96] fix: keep the whole alternative text of images

Only the last piece of an alternative text with markup, entities or several
lines was kept, its markup leaked out of the image, and code spans and nested
images inside it raised an exception.
---
 src/mdpo/md2po/__init__.py | 14 +++++++++++++-
 src/mdpo/po2md/__init__.py | 12 +++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 7572a2e..249b4da 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -704,6 +704,11 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_span', self, span, details):
             return
 
+        if self._current_imgspan:
+            # the alternative text of an image does not have markup
+            self._current_imgspan['spans_inside'] += 1
+            return
+
         # underline spans for double '_' character enters two times
         if not self._inside_uspan:
             if self._inside_aspan:  # span inside link text
@@ -758,6 +763,7 @@ class Md2Po:
             self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['text'] = ''
+            self._current_imgspan['spans_inside'] = 0
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
@@ -775,6 +781,10 @@ class Md2Po:
         if raise_skip_event(self.events, 'leave_span', self, span, details):
             return
 
+        if self._current_imgspan.get('spans_inside'):
+            self._current_imgspan['spans_inside'] -= 1
+            return
+
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
                 self.current_msgid += self._current_wikilink_target
@@ -879,7 +889,9 @@ class Md2Po:
                     text = ' '
                 if not self.plaintext:
                     if self._current_imgspan:
-                        self._current_imgspan['text'] = text
+                        self._current_imgspan['text'] += (
+                            text.replace('\n', ' ')
+                        )
                         return
                     if self._inside_codespan:
                         # fix backticks for codespan start and end to escape
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0eb7d57..6bd14cc 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -770,6 +770,11 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan:
+            # the alternative text of an image does not have markup
+            self._current_imgspan['spans_inside'] += 1
+            return
+
         with contextlib.suppress(KeyError):
             if self._inside_aspan:  # span inside link text
                 self._current_aspan_text += self._enterspan_replacer[span.value]
@@ -810,6 +815,7 @@ class Po2Md:
             self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['text'] = ''
+            self._current_imgspan['spans_inside'] = 0
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = details['target'][0][1]
         elif span is md4c.SpanType.LATEXMATH:
@@ -828,6 +834,10 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan.get('spans_inside'):
+            self._current_imgspan['spans_inside'] -= 1
+            return
+
         if span is md4c.SpanType.WIKILINK:
             self.current_msgid += polib.escape(self._current_wikilink_target)
             self._current_wikilink_target = None
@@ -931,7 +941,7 @@ class Po2Md:
                 if self._inside_liblock and text == '\n':
                     text = ' '
                 if self._current_imgspan:
-                    self._current_imgspan['text'] = text
+                    self._current_imgspan['text'] += text.replace('\n', ' ')
                     return
                 if self._inside_codespan:
                     self._codespan_backticks = min_not_max_chars_in_a_row(
-- 
2.43.0


From 99a486e9232dbc2b9936c89d1393457adecbb4f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 08/96] fix: delimit code spans according to their text

Code spans starting or ending with a backtick were joined to their
delimiters, those inside link texts put the extra backticks outside of the
link, and those in several lines could close with other number of backticks.
---
 src/mdpo/md2po/__init__.py | 58 +++++++++++---------------------------
 src/mdpo/po2md/__init__.py | 42 +++++++++++----------------
 src/mdpo/text.py           | 20 +++++++++++++
 3 files changed, 54 insertions(+), 66 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 249b4da..3b31896 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -34,7 +34,7 @@ from mdpo.po import (
     po_escaped_string,
     remove_not_found_entries,
 )
-from mdpo.text import min_not_max_chars_in_a_row, parse_wrapwidth_argument
+from mdpo.text import codespan_delimiters, parse_wrapwidth_argument
 
 
 class Md2Po:
@@ -133,8 +133,7 @@ class Md2Po:
         '_inside_olblock',
         '_inside_hblock',
         '_quoteblocks_deep',
-        '_codespan_start_index',
-        '_codespan_backticks',
+        '_codespan_text',
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
@@ -288,13 +287,11 @@ class Md2Po:
             self._enterspan_replacer = {
                 md4c.SpanType.STRONG.value: self.bold_start_string,
                 md4c.SpanType.EM.value: self.italic_start_string,
-                md4c.SpanType.CODE.value: self.code_start_string,
             }
 
             self._leavespan_replacer = {
                 md4c.SpanType.STRONG.value: self.bold_end_string,
                 md4c.SpanType.EM.value: self.italic_end_string,
-                md4c.SpanType.CODE.value: self.code_end_string,
             }
 
             if 'strikethrough' in self.extensions:
@@ -382,8 +379,7 @@ class Md2Po:
         self._quoteblocks_deep = 0
         self._uls_deep = 0
 
-        self._codespan_start_index = None
-        self._codespan_backticks = None
+        self._codespan_text = ''
 
         self._inside_aspan = False
         self._current_aspan_text = ''
@@ -751,11 +747,8 @@ class Md2Po:
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
 
-            # entering a code span, literal backticks encountered inside
-            # will be escaped
-            #
-            # save the index char of the opening backtick
-            self._codespan_start_index = len(self.current_msgid) - 1
+            # the delimiters of a code span depend on its text
+            self._codespan_text = ''
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -826,18 +819,16 @@ class Md2Po:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self._codespan_start_index = None
-
-            # add backticks at the end for escape internal backticks
+            start, end = codespan_delimiters(
+                self.code_start_string,
+                self.code_end_string,
+                self._codespan_text,
+            )
+            codespan = f'{start}{self._codespan_text}{end}'
             if self._inside_aspan:
-                self._current_aspan_text += (
-                    self._codespan_backticks * self.code_end_string
-                )
+                self._current_aspan_text += codespan
             else:
-                self.current_msgid += (
-                    self._codespan_backticks * self.code_end_string
-                )
-            self._codespan_backticks = None
+                self.current_msgid += codespan
         elif span is md4c.SpanType.IMG:
             referenced_target = None
             imgspan_src = attribute_text(details['src'])
@@ -894,27 +885,12 @@ class Md2Po:
                         )
                         return
                     if self._inside_codespan:
-                        # fix backticks for codespan start and end to escape
-                        # internal backticks
-                        self._codespan_backticks = min_not_max_chars_in_a_row(
-                            self.code_start_string,
-                            text,
-                        ) - 1
-                        backticks = (
-                            self._codespan_backticks * self.code_start_string
-                        )
-                        self.current_msgid = (
-                            f'{self.current_msgid[:self._codespan_start_index]}'
-                            f'{backticks}'
-                            f'{self.current_msgid[self._codespan_start_index:]}'
-                        )
-                        if self._inside_aspan:
-                            self._current_aspan_text += text
-                            return
-                    elif self._inside_aspan:
+                        self._codespan_text += text
+                        return
+                    if self._inside_aspan:
                         self._current_aspan_text += text
                         return
-                    elif text == self.italic_start_string:
+                    if text == self.italic_start_string:
                         text = self.italic_start_string_escaped
                     elif text == self.code_start_string:
                         text = self.code_start_string_escaped
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6bd14cc..22765b9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -26,7 +26,7 @@ from mdpo.po import (
 )
 from mdpo.text import (
     INFINITE_WRAPWIDTH,
-    min_not_max_chars_in_a_row,
+    codespan_delimiters,
     parse_wrapwidth_argument,
 )
 
@@ -117,8 +117,7 @@ class Po2Md:
         '_inside_aspan',
         '_inside_codespan',
         '_inside_latexmath_display',
-        '_codespan_start_index',
-        '_codespan_backticks',
+        '_codespan_text',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
         '_current_aspan_ref_target',
@@ -238,13 +237,11 @@ class Po2Md:
         self._enterspan_replacer = {
             md4c.SpanType.STRONG.value: self.bold_start_string,
             md4c.SpanType.EM.value: self.italic_start_string,
-            md4c.SpanType.CODE.value: self.code_start_string,
         }
 
         self._leavespan_replacer = {
             md4c.SpanType.STRONG.value: self.bold_end_string,
             md4c.SpanType.EM.value: self.italic_end_string,
-            md4c.SpanType.CODE.value: self.code_end_string,
         }
 
         if 'strikethrough' in self.extensions:
@@ -307,8 +304,7 @@ class Po2Md:
         self._inside_liblock_first_p = False
 
         self._inside_codespan = False
-        self._codespan_start_index = None
-        self._codespan_backticks = None
+        self._codespan_text = ''
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
@@ -806,7 +802,7 @@ class Po2Md:
                         break
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._codespan_text = ''
             self._codespan_inside_current_msgid = True
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
@@ -880,10 +876,16 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self.current_msgid += (
-                self._codespan_backticks * self.code_end_string
+            start, end = codespan_delimiters(
+                self.code_start_string,
+                self.code_end_string,
+                self._codespan_text,
             )
-            self._codespan_backticks = None
+            codespan = f'{start}{self._codespan_text}{end}'
+            if self._inside_aspan:
+                self._current_aspan_text += codespan
+            else:
+                self.current_msgid += codespan
         elif span is md4c.SpanType.IMG:
             referenced_target = None
             imgspan_src = attribute_text(details['src'])
@@ -944,22 +946,12 @@ class Po2Md:
                     self._current_imgspan['text'] += text.replace('\n', ' ')
                     return
                 if self._inside_codespan:
-                    self._codespan_backticks = min_not_max_chars_in_a_row(
-                        self.code_start_string,
-                        text,
-                    ) - 1
-                    self.current_msgid = (
-                        f'{self.current_msgid[:self._codespan_start_index]}'
-                        f'{self._codespan_backticks * self.code_start_string}'
-                        f'{self.current_msgid[self._codespan_start_index:]}'
-                    )
-                    if self._inside_aspan:
-                        self._current_aspan_text += text
-                        return
-                elif self._inside_aspan:
+                    self._codespan_text += text
+                    return
+                if self._inside_aspan:
                     self._current_aspan_text += text
                     return
-                elif text == self.italic_start_string:
+                if text == self.italic_start_string:
                     text = self.italic_start_string_escaped
                 elif text == self.code_start_string:
                     text = self.code_start_string_escaped
diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index d78c9c1..bf62f9a 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -60,6 +60,26 @@ def min_not_max_chars_in_a_row(char, text, default=1):
     return response
 
 
+def codespan_delimiters(start_char, end_char, text):
+    """Get the strings that must wrap the text of a code span.
+
+    Args:
+        start_char (str): Character that opens code spans.
+        end_char (str): Character that closes code spans.
+        text (str): Text of the code span.
+
+    Returns:
+        tuple: Strings that open and close the code span.
+    """
+    n_chars = min_not_max_chars_in_a_row(start_char, text)
+    # one space is removed from each side of the text of a code span
+    padding = ' ' if (
+        text.startswith(start_char) or text.endswith(end_char)
+        or (text[:1] == text[-1:] == ' ' and text.strip(' '))
+    ) else ''
+    return (start_char * n_chars + padding, padding + end_char * n_chars)
+
+
 def parse_escaped_pair(value, separator=':'):
     r"""Escapes a pair key-value separated by a character.
 
-- 
2.43.0


From 3f5d22c952c165dc804b8b88bc38e167c33923ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 09/96] fix: keep the labels of wikilinks

Labels with markup, entities or several lines were split, and po2md escaped
the quotes of wikilinks so their messages were not found in the catalog.
---
 src/mdpo/md2po/__init__.py | 24 ++++++++++++------------
 src/mdpo/po2md/__init__.py | 23 ++++++++++++-----------
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 3b31896..8066753 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -136,7 +136,7 @@ class Md2Po:
         '_codespan_text',
         '_current_aspan_text',
         '_current_aspan_ref_target',
-        '_current_wikilink_target',
+        '_current_wikilink_start_index',
         '_inside_latexmath_display',
         '_inside_latexmath_display_text',
         '_current_imgspan',
@@ -388,7 +388,7 @@ class Md2Po:
         self._current_aspan_ref_target = None
 
         self.link_references = None
-        self._current_wikilink_target = None
+        self._current_wikilink_start_index = 0
         self._current_imgspan = {}
 
     def _save_msgid(
@@ -760,7 +760,7 @@ class Md2Po:
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -780,8 +780,15 @@ class Md2Po:
 
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
-                self.current_msgid += self._current_wikilink_target
-                self._current_wikilink_target = None
+                target = attribute_text(details['target'])
+                start = self._current_wikilink_start_index
+                if self.current_msgid[start:] != target:
+                    # not self-referenced wikilink
+                    self.current_msgid = (
+                        f'{self.current_msgid[:start]}{target}'
+                        f'|{self.current_msgid[start:]}'
+                    )
+                self._current_wikilink_start_index = 0
             if self._inside_aspan:  # span inside link text
                 with contextlib.suppress(KeyError):
                     self._current_aspan_text += self._leavespan_replacer[
@@ -900,13 +907,6 @@ class Md2Po:
                         text = self.code_end_string_escaped
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
-                if self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        # not self-referenced wikilink
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
                 if self._inside_latexmath_display:
                     self._inside_latexmath_display_text += text.strip()
                     return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 22765b9..f4f9fde 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -129,7 +129,7 @@ class Po2Md:
         '_ul_marks',
         '_ol_marks',
         '_current_list_type',
-        '_current_wikilink_target',
+        '_current_wikilink_start_index',
         'link_references',
     }
 
@@ -335,7 +335,7 @@ class Po2Md:
         # (second parameter is tasklist item or not)
         self._current_list_type = []
 
-        self._current_wikilink_target = None
+        self._current_wikilink_start_index = 0
 
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
@@ -813,7 +813,7 @@ class Po2Md:
             self._current_imgspan['text'] = ''
             self._current_imgspan['spans_inside'] = 0
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH:
             self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -835,8 +835,15 @@ class Po2Md:
             return
 
         if span is md4c.SpanType.WIKILINK:
-            self.current_msgid += polib.escape(self._current_wikilink_target)
-            self._current_wikilink_target = None
+            target = attribute_text(details['target'])
+            start = self._current_wikilink_start_index
+            if self.current_msgid[start:] != target:
+                # not self-referenced wikilink
+                self.current_msgid = (
+                    f'{self.current_msgid[:start]}{target}'
+                    f'|{self.current_msgid[start:]}'
+                )
+            self._current_wikilink_start_index = 0
 
         if self._inside_aspan:  # span inside link text
             with contextlib.suppress(KeyError):
@@ -966,12 +973,6 @@ class Po2Md:
                     # self-referenced wiki or inline link
                     self._current_aspan_href = None
 
-                elif self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
                 self.current_msgid += text
             else:
                 if self._inside_liblock:
-- 
2.43.0


From 517f20886bbdd5ac82fa5a0b188e19463f6eca39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 10/96] fix: join the lines of headings and link texts

The texts of headings and links written in several lines kept their newlines,
which breaks headings in po2md and does not match with the message of md2po.
---
 src/mdpo/md2po/__init__.py | 4 +---
 src/mdpo/po2md/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 8066753..44af2dc 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -881,9 +881,7 @@ class Md2Po:
 
         if not self._inside_htmlblock:
             if not self._inside_codeblock:
-                if any([  # softbreaks
-                    self._inside_liblock, self._inside_aspan,
-                ]) and text == '\n':
+                if text == '\n':  # softbreaks
                     text = ' '
                 if not self.plaintext:
                     if self._current_imgspan:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f4f9fde..0b801ff 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -947,7 +947,7 @@ class Po2Md:
 
         if not self._inside_htmlblock[0]:
             if not self._inside_codeblock:
-                if self._inside_liblock and text == '\n':
+                if text == '\n':  # softbreaks
                     text = ' '
                 if self._current_imgspan:
                     self._current_imgspan['text'] += text.replace('\n', ' ')
-- 
2.43.0


From 1631636df592fe8b3fd300eff5dbd54c17e54dd0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 11/96] fix: keep the escapes of characters in link texts

---
 src/mdpo/md2po/__init__.py | 6 +++---
 src/mdpo/po2md/__init__.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 44af2dc..faf8a2c 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -892,9 +892,6 @@ class Md2Po:
                     if self._inside_codespan:
                         self._codespan_text += text
                         return
-                    if self._inside_aspan:
-                        self._current_aspan_text += text
-                        return
                     if text == self.italic_start_string:
                         text = self.italic_start_string_escaped
                     elif text == self.code_start_string:
@@ -903,6 +900,9 @@ class Md2Po:
                         text = self.italic_end_string_escaped
                     elif text == self.code_end_string:   # pragma: no cover
                         text = self.code_end_string_escaped
+                    if self._inside_aspan:
+                        self._current_aspan_text += text
+                        return
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
                 if self._inside_latexmath_display:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0b801ff..f41fafb 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -955,9 +955,6 @@ class Po2Md:
                 if self._inside_codespan:
                     self._codespan_text += text
                     return
-                if self._inside_aspan:
-                    self._current_aspan_text += text
-                    return
                 if text == self.italic_start_string:
                     text = self.italic_start_string_escaped
                 elif text == self.code_start_string:
@@ -966,6 +963,9 @@ class Po2Md:
                     text = self.code_end_string_escaped
                 elif text == self.italic_end_string:  # pragma: no cover
                     text = self.italic_end_string_escaped
+                if self._inside_aspan:
+                    self._current_aspan_text += text
+                    return
 
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
-- 
2.43.0


From 53fe98851299c06373ae34acabb318d9104ac82b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 12/96] fix: write the text of list items before nested ordered
 lists in po2md

---
 src/mdpo/po2md/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f41fafb..7db6ca5 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -575,10 +575,6 @@ class Po2Md:
         elif block is md4c.BlockType.LI:
             if self._current_list_type[-1][0] == 'ol':
                 # inside OL
-                if len(self._ol_marks) > 1:
-                    self._save_current_msgid()
-                    if not self._ol_marks[-1][0]:
-                        self._save_current_line()
                 self._ol_marks[-1][0] += 1
                 indent = '   ' * (len(self._current_list_type) - 1)
                 self.current_line += f'{indent}1{self._ol_marks[-1][1]} '
@@ -600,6 +596,9 @@ class Po2Md:
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
+            if self._current_list_type:
+                self._save_current_msgid()
+                self._save_current_line()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
-- 
2.43.0


From 0b82c62c57c2023b3bf26415bad21e732d590462 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 13/96] fix: keep paragraphs after nested lists inside their
 item in po2md

---
 src/mdpo/po2md/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7db6ca5..20f0a96 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -697,7 +697,8 @@ class Po2Md:
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
             self._save_current_msgid()
-            self._inside_liblock = False
+            self._inside_liblock = len(self._current_list_type) > 1
+            self._inside_liblock_first_p = False
             if self.current_line:
                 self._save_current_line()
         elif block is md4c.BlockType.UL:
-- 
2.43.0


From 5873ebf22d04070aa33ed3196269c901d7470c51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 14/96] fix: keep nested blocks inside their list items and
 quotes in po2md

---
 src/mdpo/po2md/__init__.py | 283 +++++++++++++++++++------------------
 1 file changed, 143 insertions(+), 140 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 20f0a96..1c0d03c 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -110,16 +110,16 @@ class Po2Md:
         '_inside_htmlblock',
         '_inside_codeblock',
         '_inside_indented_codeblock',
+        '_codeblock_starts_item',
         '_inside_pblock',
         '_inside_liblock',
-        '_inside_liblock_first_p',
         '_inside_hblock',
         '_inside_aspan',
         '_inside_codespan',
         '_inside_latexmath_display',
         '_codespan_text',
         '_codespan_inside_current_msgid',
-        '_inside_quoteblock',
+        '_containers',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -297,17 +297,17 @@ class Po2Md:
         ]
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
+        self._codeblock_starts_item = False
         self._inside_hblock = False
         self._inside_pblock = False
         self._inside_liblock = False
-        # first li block paragraph (li block "title")
-        self._inside_liblock_first_p = False
 
         self._inside_codespan = False
         self._codespan_text = ''
         self._codespan_inside_current_msgid = False
 
-        self._inside_quoteblock = False
+        # list items ('ul' or 'ol') and quotes ('quote') being written
+        self._containers = []
 
         self._inside_aspan = False
         self._current_aspan_ref_target = None
@@ -449,14 +449,28 @@ class Po2Md:
                 ),
             )
 
-        if self._inside_indented_codeblock:
-            new_translation = ''
-            for line in translation.splitlines():
-                new_translation += f'    {line}\n'
-            translation = new_translation
+        if self._inside_codeblock:
+            prefix = self._line_prefix(
+                content=(
+                    self._inside_indented_codeblock
+                    or self._codeblock_starts_item
+                ),
+            )
+            if self._inside_indented_codeblock:
+                prefix += '    '
+            lines = translation.split('\n')
+            if not lines[-1]:
+                lines.pop()
+            lines = [f'{prefix}{line}' for line in lines]
+            if self.current_line:
+                # indented code block after a list mark
+                lines[0] = f'{self.current_line}    {lines[0][len(prefix):]}'
+                self.current_line = ''
+            self.outputlines.extend(lines)
+            translation = ''
         else:
             first_line_width_diff = 0
-            if self._inside_liblock or self._inside_quoteblock:
+            if self._containers:
                 first_line_width_diff = -2
                 if self._inside_liblock:
                     if self._current_list_type[-1][0] == 'ul':
@@ -468,7 +482,7 @@ class Po2Md:
             # Wrap lines with Unicode Line Break algorithm
             #
             # Only execute it for text outside tables
-            if not self._inside_codeblock and not self._current_thead_aligns:
+            if not self._current_thead_aligns:
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     self.wrapwidth,
@@ -478,11 +492,12 @@ class Po2Md:
                 if not any([
                     self._inside_liblock,
                     self._inside_hblock,
-                    self._inside_quoteblock,
+                    self._containers,
                 ]):
                     translation += '\n'
 
         if translation.rstrip('\n'):
+            self._open_line()
             self.current_line += translation
 
         self.current_msgid = ''
@@ -497,6 +512,49 @@ class Po2Md:
         self.disable_next_block = False
         self.enable_next_block = False
 
+    def _line_prefix(self, content=False):
+        """Prefix of the lines of the current list items and quotes.
+
+        The items of unordered lists are indented by 3 spaces although their
+        content starts at the second column, ``content`` indicates if these
+        spaces are part of the content, as in code blocks.
+        """
+        prefix = ''.join(
+            '> ' if container == 'quote' else '   '
+            for container in self._containers
+        )
+        if content and self._containers and self._containers[-1] == 'ul':
+            return prefix[:-1]
+        return prefix
+
+    def _open_line(self, content=False):
+        if not self.current_line:
+            self.current_line = self._line_prefix(content=content)
+
+    def _close_line(self):
+        """Save the text and the line of the current list item, if any."""
+        if self._inside_liblock:
+            self._save_current_msgid()
+        if self.current_line:
+            self._save_current_line()
+
+    def _separate_nested_block(self):
+        if self._inside_liblock:
+            self._save_current_msgid()
+            if self.current_line:
+                self._save_current_line()
+            else:
+                self._save_blank_line()
+
+    def _end_list(self):
+        if not self._inside_liblock and self.outputlines[-1]:
+            self.outputlines.append(self._line_prefix().rstrip(' '))
+
+    def _save_blank_line(self):
+        line = self._line_prefix().rstrip(' ')
+        if not line or self.outputlines[-1:] != [line]:
+            self.outputlines.append(line)
+
     def _save_current_line(self):
         # strip all spaces according to unicodedata database ignoring newlines,
         # see https://docs.python.org/3/library/stdtypes.html#str.splitlines
@@ -506,26 +564,14 @@ class Po2Md:
         self.current_line = ''
 
     def _save_html_content(self, content):
-        indent = '   ' * len(self._current_list_type)
-        if self._inside_quoteblock:
-            indent = f'> {indent}'
-        elif self._inside_liblock and self.current_msgid:
+        if self._inside_liblock and self.current_msgid:
             # text of a tight list item before the HTML block
-            self._save_current_msgid()
-            self._save_current_line()
-        if not self.current_line:
-            self.current_line = indent
-
-        first_line, *lines = content.split('\n')
-        self.current_line += first_line
-        self._save_current_line()
-        for line in lines:
-            self.current_line = f'{indent}{line}'
+            self._close_line()
+        for line in content.split('\n'):
+            self._open_line(content=True)
+            self.current_line += line
             self._save_current_line()
-
-        if self._inside_quoteblock:
-            self.current_line = '>'
-        self._save_current_line()
+        self._save_blank_line()
 
     def enter_block(self, block, details):
         # raise 'enter_block' event
@@ -537,100 +583,89 @@ class Po2Md:
         ):
             return
 
-        if (
-            self._inside_quoteblock
-            and (not self.current_line or self.current_line[0] != '>')
-            and not self._current_thead_aligns
-            and block not in {
-                md4c.BlockType.TABLE, md4c.BlockType.THEAD, md4c.BlockType.TR,
-            }
-        ):
-            self.current_line += '> '
         if block is md4c.BlockType.P:
             self._inside_pblock = True
+            if self._containers and not self.current_line:
+                if self._inside_liblock:
+                    self._save_blank_line()
+                self._open_line()
         elif block is md4c.BlockType.CODE:
+            if self.current_msgid:
+                self._close_line()
+            self._codeblock_starts_item = bool(self.current_line)
             self._inside_codeblock = True
-            indent = ''
-
-            if self._inside_liblock:
-                self._save_current_msgid()
-                if self.current_line:
-                    self._save_current_line()
-                indent += '   ' * len(self._current_list_type)
-
             if details['fence_char'] is not None:
-                fence_chars = details['fence_char'] * 3
-                self.current_line += f'{indent}{fence_chars}'
+                self._open_line()
+                self.current_line += details['fence_char'] * 3
                 if details['lang']:
                     self.current_line += details['lang'][0][1]
+                self._save_current_line()
             else:
                 self._inside_indented_codeblock = True
-
-            if self.current_line:
-                self._save_current_line()
+                if self._inside_liblock and not self.current_line:
+                    # can not interrupt a paragraph
+                    self._save_blank_line()
         elif block is md4c.BlockType.H:
+            if self.current_msgid:
+                self._close_line()
             self._inside_hblock = True
+            self._open_line()
             hash_signs = '#' * details['level']
             self.current_line += f'{hash_signs} '
         elif block is md4c.BlockType.LI:
-            if self._current_list_type[-1][0] == 'ol':
+            self._open_line()
+            list_type = self._current_list_type[-1][0]
+            if list_type == 'ol':
                 # inside OL
                 self._ol_marks[-1][0] += 1
-                indent = '   ' * (len(self._current_list_type) - 1)
-                self.current_line += f'{indent}1{self._ol_marks[-1][1]} '
+                self.current_line += f'1{self._ol_marks[-1][1]} '
                 self._current_list_type[-1][-1].append(False)
             else:
                 # inside UL
-                indent = '   ' * (len(self._current_list_type) - 1)
-                self.current_line += f'{indent}{self._ul_marks[-1]} '
+                self.current_line += f'{self._ul_marks[-1]} '
                 if details['is_task']:
                     mark = details['task_mark']
                     self.current_line += f'[{mark}] '
                 self._current_list_type[-1][-1].append(details['is_task'])
+            self._containers.append(list_type)
             self._inside_liblock = True
-            self._inside_liblock_first_p = True
         elif block is md4c.BlockType.UL:
-            if self._current_list_type:
-                self._save_current_msgid()
-                self._save_current_line()
+            self._separate_nested_block()
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
-            if self._current_list_type:
-                self._save_current_msgid()
-                self._save_current_line()
+            self._separate_nested_block()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
-            if self._current_list_type and not self.current_line:
-                self._save_current_line()
-            indent = (
-                '   ' * len(self._current_list_type)
-                if not self.current_line.startswith(('- ', '> - ')) else ''
+            if self.current_msgid:
+                self._close_line()
+            elif self._inside_liblock and not self.current_line:
+                self._save_blank_line()
+            self._open_line()
+            self.current_line += (
+                '---' if self.current_line.endswith('* ') else '***'
             )
-            self.current_line += f'{indent}***'
             self._save_current_line()
             if not self._inside_liblock:
-                if self._inside_quoteblock:
-                    self.current_line += f'{indent}>'
-                self._save_current_line()
+                self._save_blank_line()
         elif block is md4c.BlockType.TR:
-            self.current_line += '   ' * len(self._current_list_type)
-            if self._inside_quoteblock and self._current_thead_aligns:
-                self.current_line += '> '
+            self._open_line()
         elif block is md4c.BlockType.TH:
             self.current_line += '| '
             self._current_thead_aligns.append(details['align'].value)
         elif block is md4c.BlockType.TD:
             self.current_line += '| '
         elif block is md4c.BlockType.QUOTE:
-            if self._inside_liblock:
-                self._save_current_msgid()
-                self._save_current_line()
-            self._inside_quoteblock = True
+            if self.current_line and not self.current_msgid:
+                self.current_line += '> '
+            else:
+                self._separate_nested_block()
+            self._containers.append('quote')
+            self._inside_liblock = False
         elif block is md4c.BlockType.TABLE:
-            if self._current_list_type and not self._inside_quoteblock:
-                self._save_current_line()
+            if not self.current_line or self.current_msgid:
+                self._separate_nested_block()
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = [True, '', False]
 
@@ -648,73 +683,45 @@ class Po2Md:
         if block is md4c.BlockType.P:
             self._save_current_msgid()
 
-            if self._inside_liblock:
-                if self._inside_quoteblock:
-                    indent = '   ' * len(self._current_list_type)
-                    self.current_line = f'{indent}{self.current_line}'
-                elif self._inside_liblock_first_p:
-                    self._inside_liblock_first_p = False
-                else:
-                    indent = '   ' * len(self._current_list_type)
-                    self.current_line = f'\n{indent}{self.current_line}'
             self._save_current_line()
 
             self._inside_pblock = False
-            if self._inside_quoteblock:
-                self.current_line = '>'
-                self._save_current_line()
-
+            if 'quote' in self._containers:
+                self._save_blank_line()
         elif block is md4c.BlockType.CODE:
             self._save_current_msgid()
             self._inside_codeblock = False
 
-            indent = ''
-            if self._inside_liblock:
-                indent += '   ' * len(self._current_list_type)
-            self.current_line = self.current_line.rstrip('\n')
-            self._save_current_line()
             if not self._inside_indented_codeblock:
-                fence_chars = details['fence_char'] * 3
-                self.current_line += f'{indent}{fence_chars}'
-
-            self._save_current_line()
-            # prevent two newlines after indented code block
-            if not self._inside_liblock and (
-                    not self._inside_indented_codeblock
-            ):
+                self._open_line(content=self._codeblock_starts_item)
+                self.current_line += details['fence_char'] * 3
                 self._save_current_line()
+            if not self._inside_liblock:
+                self._save_blank_line()
             self._inside_indented_codeblock = False
         elif block is md4c.BlockType.H:
             self._save_current_msgid()
-            if self._inside_quoteblock:
-                self._save_current_line()
-                self.current_line += '> '
-            else:
-                self.current_line += '\n'
             self._save_current_line()
-            if self._inside_quoteblock:
-                self.current_line += '> '
+            self._save_blank_line()
+            if self._inside_liblock and 'quote' in self._containers:
+                self.outputlines.append(self.outputlines[-1])
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
             self._save_current_msgid()
-            self._inside_liblock = len(self._current_list_type) > 1
-            self._inside_liblock_first_p = False
             if self.current_line:
                 self._save_current_line()
+            self._containers.pop()
+            self._inside_liblock = self._containers[-1:] not in (
+                [], ['quote'],
+            )
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
             self._current_list_type.pop()
-            if self._inside_quoteblock:
-                self.current_line += '> '
-            if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
-                self._save_current_line()
+            self._end_list()
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
-            if self._inside_quoteblock:
-                self.current_line += '> '
-            if not self._ol_marks and self.outputlines[-1]:
-                self._save_current_line()
+            self._end_list()
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
             self._save_current_msgid()
             self.current_line += ' '
@@ -723,9 +730,7 @@ class Po2Md:
             self._save_current_line()
         elif block is md4c.BlockType.THEAD:
             # build thead separator
-            thead_separator = ''
-            if self._inside_quoteblock:
-                thead_separator += '> '
+            thead_separator = self._line_prefix()
             for align in self._current_thead_aligns:
                 if align == 0:
                     thead_separator += '| --- '
@@ -736,18 +741,20 @@ class Po2Md:
                 else:
                     thead_separator += '| --: '
 
-            indent = '   ' * len(self._current_list_type)
-            self.current_line += f'{indent}{thead_separator}|'
+            self.current_line += f'{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1] == '>':
+            if self.outputlines[-1:] == [self._line_prefix().rstrip(' ')]:
                 self.outputlines.pop()
+            self._containers.pop()
+            self._inside_liblock = self._containers[-1:] not in (
+                [], ['quote'],
+            )
             if not self._inside_liblock:
-                self._save_current_line()
-            self._inside_quoteblock = False
+                self._save_blank_line()
         elif block is md4c.BlockType.TABLE:
-            if not self._inside_quoteblock and not self._current_list_type:
-                self._save_current_line()
+            if not self._inside_liblock:
+                self._save_blank_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
             content = self._inside_htmlblock[1].strip('\n')
@@ -975,10 +982,6 @@ class Po2Md:
 
                 self.current_msgid += text
             else:
-                if self._inside_liblock:
-                    indent = '   ' * len(self._current_list_type)
-                    if self.current_line[:len(indent) + 1] != indent:
-                        self.current_line += indent
                 self.current_msgid += text
         elif self._process_command(text):
             self._inside_htmlblock[2] = True
-- 
2.43.0


From c35f93ad4111dbd543616f776d1ecb2b79a35fd1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 15/96] fix: keep the fences and info strings of code blocks in
 po2md

---
 src/mdpo/po2md/__init__.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 1c0d03c..79c7fc9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -111,6 +111,7 @@ class Po2Md:
         '_inside_codeblock',
         '_inside_indented_codeblock',
         '_codeblock_starts_item',
+        '_codeblock_fence_index',
         '_inside_pblock',
         '_inside_liblock',
         '_inside_hblock',
@@ -298,6 +299,7 @@ class Po2Md:
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
         self._codeblock_starts_item = False
+        self._codeblock_fence_index = 0
         self._inside_hblock = False
         self._inside_pblock = False
         self._inside_liblock = False
@@ -527,6 +529,19 @@ class Po2Md:
             return prefix[:-1]
         return prefix
 
+    def _codeblock_fence(self, fence_char):
+        """Fence of the current code block, longer than those inside it."""
+        fence = fence_char * 3
+        opening, *lines = self.outputlines[self._codeblock_fence_index:]
+        prefix = len(self._line_prefix(content=self._codeblock_starts_item))
+        for line in lines:
+            while line[prefix:].lstrip(' ').startswith(fence):
+                fence += fence_char
+        self.outputlines[self._codeblock_fence_index] = opening.replace(
+            fence_char * 3, fence, 1,
+        )
+        return fence
+
     def _open_line(self, content=False):
         if not self.current_line:
             self.current_line = self._line_prefix(content=content)
@@ -597,8 +612,8 @@ class Po2Md:
             if details['fence_char'] is not None:
                 self._open_line()
                 self.current_line += details['fence_char'] * 3
-                if details['lang']:
-                    self.current_line += details['lang'][0][1]
+                self.current_line += attribute_text(details['info'])
+                self._codeblock_fence_index = len(self.outputlines)
                 self._save_current_line()
             else:
                 self._inside_indented_codeblock = True
@@ -693,8 +708,9 @@ class Po2Md:
             self._inside_codeblock = False
 
             if not self._inside_indented_codeblock:
+                fence = self._codeblock_fence(details['fence_char'])
                 self._open_line(content=self._codeblock_starts_item)
-                self.current_line += details['fence_char'] * 3
+                self.current_line += fence
                 self._save_current_line()
             if not self._inside_liblock:
                 self._save_blank_line()
-- 
2.43.0


From 21baf5861de33a582571d64bd7e7f34904e65487 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 16/96] fix: keep lists that start an item of another list in
 po2md

---
 src/mdpo/po2md/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 79c7fc9..cb5eed2 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -561,6 +561,13 @@ class Po2Md:
             else:
                 self._save_blank_line()
 
+    def _separate_nested_list(self):
+        if not self.current_line or self.current_msgid:
+            self._separate_nested_block()
+        elif self._containers[-1:] == ['ul']:
+            # the list starts an item, fill the indentation of its lines
+            self.current_line += ' '
+
     def _end_list(self):
         if not self._inside_liblock and self.outputlines[-1]:
             self.outputlines.append(self._line_prefix().rstrip(' '))
@@ -645,11 +652,11 @@ class Po2Md:
             self._containers.append(list_type)
             self._inside_liblock = True
         elif block is md4c.BlockType.UL:
-            self._separate_nested_block()
+            self._separate_nested_list()
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
-            self._separate_nested_block()
+            self._separate_nested_list()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
-- 
2.43.0


From 4d944b19efd48e344b255b88c6c1c3ec162def6f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 17/96] fix: keep math inside links in po2md

---
 src/mdpo/po2md/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index cb5eed2..cffbfa9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -845,7 +845,10 @@ class Po2Md:
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_start_string
+            if self._inside_aspan:
+                self._current_aspan_text += self.latexmath_start_string
+            else:
+                self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -954,7 +957,10 @@ class Po2Md:
 
             self._current_imgspan = {}
         elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_end_string
+            if self._inside_aspan:
+                self._current_aspan_text += self.latexmath_end_string
+            else:
+                self.current_msgid += self.latexmath_end_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_line += self.latexmath_display_start_string
-- 
2.43.0


From 8dd35cbb850f122a65c25dac952b4eb6e979efc8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 18/96] fix: keep headings on one line and short widths in
 po2md

---
 src/mdpo/po2md/__init__.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index cffbfa9..8219479 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -483,19 +483,15 @@ class Po2Md:
 
             # Wrap lines with Unicode Line Break algorithm
             #
-            # Only execute it for text outside tables
-            if not self._current_thead_aligns:
+            # Only execute it for text outside headings and tables
+            if not self._inside_hblock and not self._current_thead_aligns:
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     self.wrapwidth,
-                    self.wrapwidth + first_line_width_diff,
+                    max(self.wrapwidth + first_line_width_diff, 1),
                 )
 
-                if not any([
-                    self._inside_liblock,
-                    self._inside_hblock,
-                    self._containers,
-                ]):
+                if not self._containers:
                     translation += '\n'
 
         if translation.rstrip('\n'):
-- 
2.43.0


From 69641236ce988635df36f801fa9974737a2fc51d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 19/96] fix: do not change the meaning of texts wrapping their
 lines in po2md

---
 src/mdpo/md.py             | 107 ++++++++++++++++++++++++++++++++++---
 src/mdpo/po2md/__init__.py |  13 +++--
 2 files changed, 109 insertions(+), 11 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index a35f6de..e132699 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -1,5 +1,9 @@
 """Markdown related utilities for mdpo."""
 
+import re
+
+import md_ulb_pwrap
+
 
 LINK_REFERENCE_REGEX = (
     r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
@@ -31,8 +35,6 @@ def is_autolink(text, href):
     Returns:
         bool: If the link is written in its shortest form as an autolink.
     """
-    import re
-
     return text == href and re.match(
         r'[A-Za-z][A-Za-z0-9+.-]{1,31}:[^\s<>]*$',
         href,
@@ -75,8 +77,6 @@ def parse_link_references(content):
         list: Tuples with 3 values, target, href and title for each link
         reference.
     """
-    import re
-
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
     response = []
@@ -102,8 +102,6 @@ def solve_link_reference_targets(translations):
     Returns:
         dict: New created messages with solved link reference targets.
     """
-    import re
-
     link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
@@ -193,3 +191,100 @@ def solve_link_reference_targets(translations):
         solutions[new_msgid] = new_msgstr
 
     return solutions
+
+
+HTML_BLOCK_TAGS = (
+    'address|article|aside|base|basefont|blockquote|body|caption|center|col|'
+    'colgroup|dd|details|dialog|dir|div|dl|dt|fieldset|figcaption|figure|'
+    'footer|form|frame|frameset|h[1-6]|head|header|hr|html|iframe|legend|li|'
+    'link|main|menu|menuitem|nav|noframes|ol|optgroup|option|p|param|section|'
+    'source|summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul'
+)
+
+# lines that start other block, even after the text of a paragraph
+BLOCK_MARK_RE = re.compile(
+    r'(?:#{1,6}|[-+*]|\d{1,9}(?=[.)])[.)])(?:\s|$)|>|~{3}|`{3}[^`]*$'
+    r'|(?:=+|-+)\s*$|(?:(?:\*\s*){3,}|(?:_\s*){3,}|(?:-\s*){3,})$'
+    # delimiter row of a table
+    r'|(?=.*-)(?=.*[|:])[-|:\s]+$',
+)
+HTML_BLOCK_RE = re.compile(
+    r'<(?:[!?]|(?:script|pre|style|textarea)(?:[\s>]|$)'
+    rf'|/?(?:{HTML_BLOCK_TAGS})(?:\s|/?>|$))',
+    re.IGNORECASE,
+)
+
+# lines that are other block only if they are the first line of a paragraph
+FIRST_LINE_BLOCK_RE = re.compile(
+    r'</?[A-Za-z][^<>]*>\s*$|`{3}[^`]*$'
+    # link reference definition
+    r'|\[(?:[^\[\]\\]|\\.)+\]:\s*(?:<[^<>]*>|[^\s<]\S*)?'
+    r'(?:\s+(?:"[^"]*"|\'[^\']*\'|\([^()]*\)))?\s*$',
+    re.MULTILINE | re.ASCII,
+)
+
+# spans whose spaces can not be written as line breaks
+UNBREAKABLE_SPAN_RE = re.compile(
+    r'\]\(<(?:[^<>\\]|\\.)*>|\[\[[^\[\]]*\]\]|<!--.*?-->',
+)
+
+
+def wrap_paragraph(text, width, first_line_width):
+    """Wrap the text of a paragraph without changing its meaning.
+
+    The lines are only broken at whitespaces that can be written as line
+    breaks, so a line can be longer than the passed width.
+
+    Args:
+        text (str): Markdown text of the paragraph.
+        width (int): Maximum width of the lines.
+        first_line_width (int): Maximum width of the first line.
+
+    Returns:
+        str: Wrapped text.
+    """
+    spans = [m.span() for m in UNBREAKABLE_SPAN_RE.finditer(text)]
+    lines, end = ([], 0)  # lines as their start and end positions
+    for line in md_ulb_pwrap.ulb_wrap_paragraph(
+        text, width, first_line_width,
+    ).split('\n'):
+        start = text.find(line, end)
+        end = start + len(line)
+        lines.append((start, end))
+        while len(lines) > 1 and not _can_break(text, *lines[-2:], spans):
+            lines[-2:] = [(lines[-2][0], end)]
+    return '\n'.join(text[start:end] for start, end in lines)
+
+
+def _can_break(text, previous_line, next_line, unbreakable_spans):
+    start, end = previous_line
+    next_start, next_end = next_line
+    if end == next_start and text[end - 1:end + 1].isascii():
+        # only scriptio continua can be broken between characters
+        return False
+    if any(begin < next_start < stop for begin, stop in unbreakable_spans):
+        return False
+    if start == 0 and FIRST_LINE_BLOCK_RE.match(text[start:end]):
+        return False
+    following = text[next_start:next_end]
+    return not (
+        BLOCK_MARK_RE.match(following) or HTML_BLOCK_RE.match(following)
+    )
+
+
+def escape_block_mark(text):
+    """Escape the start of a paragraph if it would start other block.
+
+    Args:
+        text (str): Markdown text of the paragraph.
+
+    Returns:
+        str: Text with the first block mark escaped, if any.
+    """
+    if text[:1] not in '<`=' and (
+        BLOCK_MARK_RE.match(text.split('\n', 1)[0])
+        or FIRST_LINE_BLOCK_RE.match(text)
+    ):
+        mark_position = len(text) - len(text.lstrip('0123456789'))
+        return f'{text[:mark_position]}\\{text[mark_position:]}'
+    return text
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 8219479..28f94b0 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -3,7 +3,6 @@
 import contextlib
 
 import md4c
-import md_ulb_pwrap
 import polib
 
 from mdpo.command import (
@@ -14,9 +13,11 @@ from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
 from mdpo.md import (
     attribute_text,
+    escape_block_mark,
     inline_link_target,
     is_autolink,
     parse_link_references,
+    wrap_paragraph,
 )
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
@@ -485,10 +486,12 @@ class Po2Md:
             #
             # Only execute it for text outside headings and tables
             if not self._inside_hblock and not self._current_thead_aligns:
-                translation = md_ulb_pwrap.ulb_wrap_paragraph(
-                    translation,
-                    self.wrapwidth,
-                    max(self.wrapwidth + first_line_width_diff, 1),
+                translation = escape_block_mark(
+                    wrap_paragraph(
+                        translation,
+                        self.wrapwidth,
+                        max(self.wrapwidth + first_line_width_diff, 1),
+                    ),
                 )
 
                 if not self._containers:
-- 
2.43.0


From 533aa04880769f6f4fb0ff59c8e321a95ebd11e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 20/96] fix: escape the vertical bars of cells and the last
 hashes of headings in po2md

---
 src/mdpo/md.py             | 29 +++++++++++++++++++++++++++++
 src/mdpo/po2md/__init__.py | 12 ++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index e132699..74b7d47 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -288,3 +288,32 @@ def escape_block_mark(text):
         mark_position = len(text) - len(text.lstrip('0123456789'))
         return f'{text[:mark_position]}\\{text[mark_position:]}'
     return text
+
+
+def escape_closing_hashes(text):
+    """Escape the end of a heading if it would be its closing sequence.
+
+    Args:
+        text (str): Markdown text of the heading.
+
+    Returns:
+        str: Text with its trailing number signs escaped, if any.
+    """
+    return re.sub(r'(^|\s)(#+\s*)$', r'\1\\\2', text)
+
+
+def escape_table_cell(text):
+    """Escape the characters that would end a cell of a table.
+
+    Args:
+        text (str): Markdown text of the cell.
+
+    Returns:
+        str: Text with its vertical bars escaped, except those of the code
+        spans, wikilinks and HTML tags, that do not end the cell.
+    """
+    return re.sub(
+        r'(`+)(?!`).+?(?<!`)\1(?!`)|\[\[[^\[\]]*\]\]|<[^<>]*>|\\.|(\|)',
+        lambda m: f'\\{m.group()}' if m.group(2) else m.group(),
+        text,
+    )
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 28f94b0..34166be 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -14,6 +14,8 @@ from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
 from mdpo.md import (
     attribute_text,
     escape_block_mark,
+    escape_closing_hashes,
+    escape_table_cell,
     inline_link_target,
     is_autolink,
     parse_link_references,
@@ -482,10 +484,12 @@ class Po2Md:
                     else:
                         first_line_width_diff = -3
 
-            # Wrap lines with Unicode Line Break algorithm
-            #
-            # Only execute it for text outside headings and tables
-            if not self._inside_hblock and not self._current_thead_aligns:
+            if self._inside_hblock:
+                translation = escape_closing_hashes(translation)
+            elif self._current_thead_aligns:
+                translation = escape_table_cell(translation)
+            else:
+                # Wrap lines with Unicode Line Break algorithm
                 translation = escape_block_mark(
                     wrap_paragraph(
                         translation,
-- 
2.43.0


From b745ab7b08ca05f6b5e3b7e8573c82e316d56ee0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 21/96] fix: keep the translations of messages found again and
 untranslated messages updating catalogs

---
 src/mdpo/md2po/__init__.py | 22 +++++++++++++++++-----
 src/mdpo/po.py             | 19 ++++++++++++++++---
 src/mdpo/polib.py          |  4 ++--
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index faf8a2c..212da2d 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -32,6 +32,7 @@ from mdpo.po import (
     find_entry_in_entries,
     mark_not_found_entries_as_obsoletes,
     po_escaped_string,
+    remove_entry,
     remove_not_found_entries,
 )
 from mdpo.text import codespan_delimiters, parse_wrapwidth_argument
@@ -438,6 +439,11 @@ class Md2Po:
                 entry.occurrences.append(occurrence)
 
         _equal_entry = find_entry_in_entries(
+            entry,
+            self.pofile,
+            compare_msgstr=False,
+            compare_occurrences=False,
+        ) or find_entry_in_entries(
             entry,
             self.pofile,
             compare_obsolete=False,
@@ -445,12 +451,18 @@ class Md2Po:
             compare_occurrences=False,
         )
 
-        if _equal_entry and _equal_entry.msgstr:
-            entry.msgstr = _equal_entry.msgstr
-            if _equal_entry.fuzzy and not entry.fuzzy:
-                entry.flags.append('fuzzy')
-        if entry not in self.pofile:
+        if _equal_entry is None:
             self.pofile.append(entry)
+        else:
+            if _equal_entry.msgstr or not _equal_entry.obsolete:
+                entry.msgstr = _equal_entry.msgstr
+            if _equal_entry.msgstr and _equal_entry.fuzzy and not entry.fuzzy:
+                entry.flags.append('fuzzy')
+            if _equal_entry.obsolete:
+                # the message has been found again
+                entry.tcomment = _equal_entry.tcomment
+                remove_entry(self.pofile, _equal_entry)
+                self.pofile.append(entry)
         self.found_entries.append(entry)
 
     def _save_current_msgid(
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 61ebb8b..a523fb7 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -48,6 +48,19 @@ def find_entry_in_entries(entry, entries, **kwargs):
     return response
 
 
+def remove_entry(pofile, entry):
+    """Remove an entry of a PO file, but not other equal to it.
+
+    Args:
+        pofile (:py:class:`polib.POFile`): PO file that contains the entry.
+        entry (:py:class:`polib.POEntry`): Entry to remove.
+    """
+    for i, other in enumerate(pofile):
+        if other is entry:
+            del pofile[i]
+            break
+
+
 def mark_not_found_entries_as_obsoletes(
     pofile,
     entries,
@@ -63,7 +76,7 @@ def mark_not_found_entries_as_obsoletes(
         entries (list): Entries to search against.
     """
     obsolete = False
-    for entry in pofile:
+    for entry in list(pofile):
         if not find_entry_in_entries(
             entry,
             entries,
@@ -76,7 +89,7 @@ def mark_not_found_entries_as_obsoletes(
                 compare_occurrences=False,
             )
             if _equal_not_obsolete_found:
-                pofile.remove(entry)
+                remove_entry(pofile, entry)
             else:
                 entry.obsolete = True
                 obsolete = True
@@ -109,7 +122,7 @@ def remove_not_found_entries(pofile, entries):
             if not _equal_not_obsolete_found:
                 entries_to_remove.append(entry)
     for entry in entries_to_remove:
-        pofile.remove(entry)
+        remove_entry(pofile, entry)
 
 
 def pofiles_to_unique_translations_dicts(pofiles):
diff --git a/src/mdpo/polib.py b/src/mdpo/polib.py
index cacaccb..8261cbb 100644
--- a/src/mdpo/polib.py
+++ b/src/mdpo/polib.py
@@ -38,8 +38,8 @@ def poentry__cmp__(
             return 1
         if occ1 < occ2:
             return -1
-    msgctxt = self.msgctxt or '0'
-    othermsgctxt = other.msgctxt or '0'
+    msgctxt = self.msgctxt or ''
+    othermsgctxt = other.msgctxt or ''
     if msgctxt > othermsgctxt:
         return 1
     if msgctxt < othermsgctxt:
-- 
2.43.0


From 4d64448213fee6bcc20ded6d41b4dfb753fd50fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 22/96] fix: do not fail in check mode if the previous output
 has other encoding

---
 src/mdpo/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 6ba8f2e..242e924 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -123,8 +123,11 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
             f.write(content)
         return True
 
-    with open(filepath, encoding=encoding) as f:
-        prev_content = f.read()
+    try:
+        with open(filepath, encoding=encoding) as f:
+            prev_content = f.read()
+    except UnicodeError:  # written using other encoding
+        prev_content = None
     changed = prev_content != content
     if changed:
         with open(filepath, 'w', encoding=encoding) as f:
-- 
2.43.0


From 0260b50602db48b9232039b3c80f2402a40daf2a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 23/96] fix: do not crash checking the entries of the PO files
 in po2md, mdpo2html and md2po

---
 src/mdpo/md2po/__main__.py     | 32 +++++++++++++++++++++++---------
 src/mdpo/mdpo2html/__main__.py | 25 +++++--------------------
 src/mdpo/po2md/__main__.py     | 25 +++++--------------------
 3 files changed, 33 insertions(+), 49 deletions(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 5f390e0..dc4b002 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -6,6 +6,7 @@ See :ref:`md2po CLI<cli:md2po>`.
 """
 
 import argparse
+import os
 import sys
 
 from mdpo.cli import (
@@ -36,6 +37,9 @@ from mdpo.po import (
     check_empty_msgstrs_in_filepaths,
     check_fuzzy_entries_in_filepaths,
     check_obsolete_entries_in_filepaths,
+    parse_empty_msgstr_from_content_lines,
+    parse_fuzzy_from_content_lines,
+    parse_obsoletes_from_content_lines,
 )
 
 
@@ -239,10 +243,16 @@ def run(args=frozenset()):
         if opts.check_saved_files_changed and md2po._saved_files_changed:
             exitcode = 2
 
+        # without PO file, the produced content is checked
+        po_file_exists = os.path.isfile(opts.po_filepath or '')
+        content_lines = str(pofile).encode('utf-8').splitlines()
+
         if opts.no_obsolete:
-            locations = list(check_obsolete_entries_in_filepaths(
-                (opts.po_filepath,),
-            ))
+            locations = list(
+                check_obsolete_entries_in_filepaths((opts.po_filepath,))
+                if po_file_exists
+                else parse_obsoletes_from_content_lines(content_lines),
+            )
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -257,9 +267,11 @@ def run(args=frozenset()):
                 exitcode = 3
 
         if opts.no_fuzzy:
-            locations = list(check_fuzzy_entries_in_filepaths(
-                (opts.po_filepath,),
-            ))
+            locations = list(
+                check_fuzzy_entries_in_filepaths((opts.po_filepath,))
+                if po_file_exists
+                else parse_fuzzy_from_content_lines(content_lines),
+            )
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -275,9 +287,11 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
-            locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
-            ))
+            locations = list(
+                check_empty_msgstrs_in_filepaths((opts.po_filepath,))
+                if po_file_exists
+                else parse_empty_msgstr_from_content_lines(content_lines),
+            )
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index a5d42e6..caf0202 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -26,7 +26,6 @@ from mdpo.po import (
     check_empty_msgstrs_in_filepaths,
     check_fuzzy_entries_in_filepaths,
     check_obsolete_entries_in_filepaths,
-    paths_or_globs_to_unique_pofiles,
 )
 
 
@@ -122,15 +121,10 @@ def run(args=frozenset()):
         if opts.check_saved_files_changed and mdpo2html._saved_files_changed:
             exitcode = 2
 
+        po_filepaths = [pofile.fpath for pofile in mdpo2html.pofiles]
+
         if opts.no_obsolete:
-            pofiles = paths_or_globs_to_unique_pofiles(
-                opts.pofiles,
-                opts.ignore or [],
-                po_encoding=opts.po_encoding,
-            )
-            locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
-            ))
+            locations = list(check_obsolete_entries_in_filepaths(po_filepaths))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -146,14 +140,7 @@ def run(args=frozenset()):
                 exitcode = 3
 
         if opts.no_fuzzy:
-            pofiles = paths_or_globs_to_unique_pofiles(
-                opts.pofiles,
-                opts.ignore or [],
-                po_encoding=opts.po_encoding,
-            )
-            locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
-            ))
+            locations = list(check_fuzzy_entries_in_filepaths(po_filepaths))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -169,9 +156,7 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
-            locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
-            ))
+            locations = list(check_empty_msgstrs_in_filepaths(po_filepaths))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4b271ea..c385601 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -29,7 +29,6 @@ from mdpo.po import (
     check_empty_msgstrs_in_filepaths,
     check_fuzzy_entries_in_filepaths,
     check_obsolete_entries_in_filepaths,
-    paths_or_globs_to_unique_pofiles,
 )
 from mdpo.po2md import Po2Md
 
@@ -146,15 +145,10 @@ def run(args=frozenset()):
         if opts.check_saved_files_changed and po2md._saved_files_changed:
             exitcode = 2
 
+        po_filepaths = [pofile.fpath for pofile in po2md.pofiles]
+
         if opts.no_obsolete:
-            pofiles = paths_or_globs_to_unique_pofiles(
-                opts.pofiles,
-                opts.ignore or [],
-                po_encoding=opts.po_encoding,
-            )
-            locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
-            ))
+            locations = list(check_obsolete_entries_in_filepaths(po_filepaths))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -170,14 +164,7 @@ def run(args=frozenset()):
                 exitcode = 3
 
         if opts.no_fuzzy:
-            pofiles = paths_or_globs_to_unique_pofiles(
-                opts.pofiles,
-                opts.ignore or [],
-                po_encoding=opts.po_encoding,
-            )
-            locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
-            ))
+            locations = list(check_fuzzy_entries_in_filepaths(po_filepaths))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -193,9 +180,7 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
-            locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
-            ))
+            locations = list(check_empty_msgstrs_in_filepaths(po_filepaths))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
-- 
2.43.0


From bfa11be20300b95bb95228879260416dcbd2c8ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 24/96] fix: keep the order of the PO files and languages
 passed to the CLIs

---
 src/mdpo/md2po2md/__main__.py  | 3 ++-
 src/mdpo/mdpo2html/__main__.py | 3 ++-
 src/mdpo/po2md/__main__.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po2md/__main__.py b/src/mdpo/md2po2md/__main__.py
index 72ae6e6..9510dbd 100755
--- a/src/mdpo/md2po2md/__main__.py
+++ b/src/mdpo/md2po2md/__main__.py
@@ -113,7 +113,8 @@ def parse_options(args):
         sys.exit(1)
     opts.input_paths_glob = input_paths_glob
 
-    opts.langs = set(itertools.chain(*opts.langs))  # flatten
+    # flatten, keeping the order
+    opts.langs = list(dict.fromkeys(itertools.chain(*opts.langs)))
 
     if opts.extensions is None:
         opts.extensions = DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index caf0202..e989a25 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -92,7 +92,8 @@ def parse_options(args):
         opts.command_aliases,
     )
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    # flatten, keeping the order
+    opts.pofiles = list(dict.fromkeys(itertools.chain(*opts.pofiles)))
 
     return opts
 
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index c385601..a43c427 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -110,7 +110,8 @@ def parse_options(args):
     )
     opts.events = parse_event_argument(opts.events)
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    # flatten, keeping the order
+    opts.pofiles = list(dict.fromkeys(itertools.chain(*opts.pofiles)))
 
     return opts
 
-- 
2.43.0


From 303a46d0fb0701dd3eeced203f06b695aa660351 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 25/96] fix: do not extract code blocks of other files after
 mdpo-include-codeblocks

---
 src/mdpo/md2po/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 212da2d..e3e94d7 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1018,6 +1018,7 @@ class Md2Po:
         if hasattr(self, 'content'):
             _parse(self.content)
         else:
+            include_codeblocks = self.include_codeblocks
             for filepath in self.filepaths:
                 with open(filepath, encoding=md_encoding) as f:
                     self.content = f.read()
@@ -1028,6 +1029,7 @@ class Md2Po:
                 self.disable_next_block = False
                 self.disable = False
                 self.enable_next_block = False
+                self.include_codeblocks = include_codeblocks
                 self.include_next_codeblock = False
                 self.disable_next_codeblock = False
                 self.link_references = None
-- 
2.43.0


From aa5c9dabcbfd2fd44cf822a984feac5bd0ae83fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 26/96] fix: end the tables of list items before headings and
 code blocks in po2md

---
 src/mdpo/po2md/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 34166be..363968b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -556,6 +556,14 @@ class Po2Md:
         if self.current_line:
             self._save_current_line()
 
+    def _end_previous_block(self):
+        if self.current_msgid:
+            self._close_line()
+        elif self._inside_liblock and not self.current_line \
+                and self.outputlines[-1].endswith('|'):
+            # end the table of the list item
+            self._save_blank_line()
+
     def _separate_nested_block(self):
         if self._inside_liblock:
             self._save_current_msgid()
@@ -615,8 +623,7 @@ class Po2Md:
                     self._save_blank_line()
                 self._open_line()
         elif block is md4c.BlockType.CODE:
-            if self.current_msgid:
-                self._close_line()
+            self._end_previous_block()
             self._codeblock_starts_item = bool(self.current_line)
             self._inside_codeblock = True
             if details['fence_char'] is not None:
@@ -631,8 +638,7 @@ class Po2Md:
                     # can not interrupt a paragraph
                     self._save_blank_line()
         elif block is md4c.BlockType.H:
-            if self.current_msgid:
-                self._close_line()
+            self._end_previous_block()
             self._inside_hblock = True
             self._open_line()
             hash_signs = '#' * details['level']
-- 
2.43.0


From 7910f012520d1c94cb0830b2c6a0b7716be85629 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 27/96] fix: do not add the title of a link reference to links
 without title

---
 src/mdpo/md2po/__init__.py | 8 ++++----
 src/mdpo/po2md/__init__.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index e3e94d7..89040ea 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -751,8 +751,8 @@ class Md2Po:
                         self._current_aspan_ref_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == current_aspan_href:
+                for target, href, title in self.link_references:
+                    if href == current_aspan_href and not title:
                         self._current_aspan_ref_target = target
                         break
 
@@ -858,8 +858,8 @@ class Md2Po:
                         referenced_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
+                for target, href, title in self.link_references:
+                    if href == imgspan_src and not title:
                         referenced_target = target
                         break
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 363968b..ab989dd 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -835,8 +835,8 @@ class Po2Md:
                         self._current_aspan_ref_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == self._current_aspan_href:
+                for target, href, title in self.link_references:
+                    if href == self._current_aspan_href and not title:
                         self._current_aspan_ref_target = target
                         break
         elif span is md4c.SpanType.CODE:
@@ -945,8 +945,8 @@ class Po2Md:
                         referenced_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
+                for target, href, title in self.link_references:
+                    if href == imgspan_src and not title:
                         referenced_target = target
                         break
 
-- 
2.43.0


From e755e0d69359a938e9c46e807b8ba4d8cb1be831 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 28/96] fix: do not let entries without translation hide
 translations of other catalogs

---
 src/mdpo/po.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index a523fb7..24d4d48 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -141,6 +141,8 @@ def pofiles_to_unique_translations_dicts(pofiles):
     translations, translations_with_msgctxt = {}, {}
     for pofile in pofiles:
         for entry in pofile:
+            if not entry.msgstr:
+                continue
             if entry.msgctxt:
                 if entry.msgctxt not in translations_with_msgctxt:
                     translations_with_msgctxt[entry.msgctxt] = {}
-- 
2.43.0


From faab3724b8b147253cbf116a0a82c246fd9d7b96 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 29/96] fix: keep the text of messages with unknown context in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9afd363..1d2afc2 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -261,9 +261,9 @@ class MdPo2HTML(HTMLParser):
             )
         else:
             if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt[
-                    self.current_msgctxt
-                ].get(_current_replacement)
+                replacement = self.translations_with_msgctxt.get(
+                    self.current_msgctxt, {},
+                ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
             if not replacement:
-- 
2.43.0


From 5b526cbb623fca7ff7af766470f000ef39ba8020 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 30/96] fix: read and write the whole destination and title of
 link reference definitions

---
 src/mdpo/md.py             | 42 ++++++++++++++++++++++++++++++--------
 src/mdpo/md2po/__init__.py |  7 +++----
 src/mdpo/po2md/__init__.py |  6 +++---
 3 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 74b7d47..120525d 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -9,6 +9,15 @@ LINK_REFERENCE_REGEX = (
     r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
 )
 
+LINK_REFERENCE_DEFINITION_RE = re.compile(
+    r'^[ \t>]*\[((?:[^\[\]\\\n]|\\.)+)\]:[ \t]*(?:\n[ \t>]*)?'
+    r'(?:<((?:[^<>\\\n]|\\.)*)>|([^\s<]\S*))'
+    r'(?:(?:[ \t]+|[ \t]*\n[ \t>]*)'
+    r'(?:"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\.)*)\''
+    r'|\(((?:[^()\\\n]|\\.)*)\)))?[ \t]*$',
+    re.MULTILINE,
+)
+
 
 def attribute_text(attribute):
     """Get the text of a MD4C attribute of a span, like a link destination.
@@ -67,6 +76,20 @@ def inline_link_target(href, title=''):
     return f'{href} "{polib.escape(title)}"'
 
 
+def link_reference_definition(target, href, title=''):
+    """Build the markup of a link reference definition.
+
+    Args:
+        target (str): Label of the definition.
+        href (str): Destination of the link.
+        title (str): Title of the link.
+
+    Returns:
+        str: Link reference definition.
+    """
+    return f'[{target}]: {inline_link_target(href, title) or "<>"}'
+
+
 def parse_link_references(content):
     """Parses link references found in a Markdown content.
 
@@ -77,15 +100,18 @@ def parse_link_references(content):
         list: Tuples with 3 values, target, href and title for each link
         reference.
     """
-    link_reference_re = re.compile(LINK_REFERENCE_REGEX)
-
     response = []
-    for line in content.splitlines():
-        linestrip = line.strip()
-        if linestrip and linestrip.startswith('['):
-            match = re.search(link_reference_re, linestrip)
-            if match:
-                response.append(match.groups())
+    for match in re.finditer(LINK_REFERENCE_DEFINITION_RE, content):
+        target, *values = match.groups()
+        angle_href, href, *titles = (
+            value and re.sub(r'\\([!-/:-@\[-`{-~])', r'\1', value)
+            for value in values
+        )
+        response.append((
+            target,
+            href if angle_href is None else angle_href,
+            next(filter(None, titles), None),
+        ))
     return response
 
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 89040ea..79e4294 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -22,6 +22,7 @@ from mdpo.md import (
     attribute_text,
     inline_link_target,
     is_autolink,
+    link_reference_definition,
     parse_link_references,
 )
 from mdpo.md4c import (
@@ -945,10 +946,8 @@ class Md2Po:
                     if skip:
                         continue
 
-                self.current_msgid = '[{}]:{}{}'.format(
-                    target,
-                    f' {href}' if href else '',
-                    f' "{title}"' if title else '',
+                self.current_msgid = link_reference_definition(
+                    target, href, title,
                 )
                 self._save_current_msgid(
                     msgstr=self.current_msgid,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ab989dd..b098cc3 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -18,6 +18,7 @@ from mdpo.md import (
     escape_table_cell,
     inline_link_target,
     is_autolink,
+    link_reference_definition,
     parse_link_references,
     wrap_paragraph,
 )
@@ -1046,12 +1047,11 @@ class Po2Md:
                             skip = True
                     if skip:
                         continue
-                title_part = f' "{title}"' if title else ''
-                href_title = f' {href}{title_part}'
+                href_title = (href, title or '')
                 if href_title in added_references:
                     continue
 
-                msgid = f'[{target}]:{href_title}'
+                msgid = link_reference_definition(target, href, title)
                 self.outputlines.append(
                     self._translate_msgid(msgid, None, None),
                 )
-- 
2.43.0


From 56bff9db0961595eb0926847eb8f797595bfaffb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 31/96] fix: do not take the text of other blocks as link
 reference definitions

---
 src/mdpo/md.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 120525d..dec1e10 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -2,6 +2,7 @@
 
 import re
 
+import md4c
 import md_ulb_pwrap
 
 
@@ -100,8 +101,24 @@ def parse_link_references(content):
         list: Tuples with 3 values, target, href and title for each link
         reference.
     """
+    matches = list(re.finditer(LINK_REFERENCE_DEFINITION_RE, content))
+    if not matches:
+        return []
+
+    # what is inside other blocks, like code, is not a definition and its
+    # label is found rendered
+    labels = [f'\ufdd0{i}\ufdd1' for i in range(len(matches))]
+    parts, end = [], 0
+    for match, label in zip(matches, labels):
+        parts.extend((content[end:match.start(1)], label))
+        end = match.end(1)
+    parts.append(content[end:])
+    rendered = md4c.HTMLRenderer(0, tables=True).parse(''.join(parts))
+
     response = []
-    for match in re.finditer(LINK_REFERENCE_DEFINITION_RE, content):
+    for match, label in zip(matches, labels):
+        if label in rendered:
+            continue
         target, *values = match.groups()
         angle_href, href, *titles = (
             value and re.sub(r'\\([!-/:-@\[-`{-~])', r'\1', value)
-- 
2.43.0


From ed9a02e2b5856e034968a209027d0fdf2a932e91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 32/96] fix: do not count the blocks after nested ordered lists
 as top-level in locations

---
 src/mdpo/md2po/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 79e4294..70c7a38 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -375,7 +375,7 @@ class Md2Po:
         self._inside_pblock = False
         self._inside_liblock = False
         self._inside_hblock = False
-        self._inside_olblock = False
+        self._inside_olblock = 0
         self._inside_codespan = False
 
         self._quoteblocks_deep = 0
@@ -650,7 +650,7 @@ class Md2Po:
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.OL.value
-            self._inside_olblock = True
+            self._inside_olblock += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
             if not any([
@@ -696,7 +696,7 @@ class Md2Po:
             elif block is md4c.BlockType.QUOTE:
                 self._quoteblocks_deep -= 1
             elif block is md4c.BlockType.OL:
-                self._inside_olblock = False
+                self._inside_olblock -= 1
             self._save_current_msgid()
 
     def enter_span(self, span, details):
-- 
2.43.0


From 8c6ee5573c0b04392f388e5b9e7771a9ddbbd3c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 33/96] fix: locate the items of a list after a quote inside it
 in the list

---
 src/mdpo/md2po/__init__.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 70c7a38..47ecdce 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -87,6 +87,7 @@ class Md2Po:
         '_current_top_level_block_number',
         '_current_top_level_block_type',
         '_current_markdown_filepath',
+        '_current_list_location',
 
         # Public class properties
         'current_msgid',
@@ -251,6 +252,8 @@ class Md2Po:
         self._current_top_level_block_number = 0
         self._current_top_level_block_type = None
         self._current_markdown_filepath = None
+        # number and type of the top level list in which quotes are found
+        self._current_list_location = None
         self._inside_latexmath_display = False
 
         if not self.plaintext:
@@ -416,9 +419,15 @@ class Md2Po:
             # here could happen a KeyError if someone has aborted an ,
             # enter event, in which case we do not have access to the
             # block type because ``self._current_top_level_block_type is None``
-            current_block_name = READABLE_BLOCK_NAMES[
-                self._current_top_level_block_type
-            ]
+            block_number, block_type = (
+                self._current_list_location
+                if self._current_list_location and not self._quoteblocks_deep
+                else (
+                    self._current_top_level_block_number,
+                    self._current_top_level_block_type,
+                )
+            )
+            current_block_name = READABLE_BLOCK_NAMES[block_type]
             # TODO: when all tests added and the location feature is fully
             #       tested, we could ignore the KeyError event keeping an
             #       incomplete occurrence place string, and raising a warning
@@ -430,10 +439,7 @@ class Md2Po:
 
             occurrence = (
                 self._current_markdown_filepath,
-                (
-                    f'block {self._current_top_level_block_number}'
-                    f' ({current_block_name})'
-                ),
+                f'block {block_number} ({current_block_name})',
             )
 
             if occurrence not in entry.occurrences:
@@ -640,6 +646,13 @@ class Md2Po:
         elif block is md4c.BlockType.QUOTE:
             self._quoteblocks_deep += 1
             if self._quoteblocks_deep == 1:
+                if self._current_list_location is None and (
+                    self._uls_deep or self._inside_olblock
+                ):
+                    self._current_list_location = (
+                        self._current_top_level_block_number,
+                        self._current_top_level_block_type,
+                    )
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.QUOTE.value
         elif block is md4c.BlockType.OL:
@@ -698,6 +711,8 @@ class Md2Po:
             elif block is md4c.BlockType.OL:
                 self._inside_olblock -= 1
             self._save_current_msgid()
+            if not self._uls_deep and not self._inside_olblock:
+                self._current_list_location = None
 
     def enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From 5baea444619d524490737559aa1b3c7b18c65484 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 34/96] fix: update the locations of the messages found again
 in the catalog

---
 src/mdpo/md2po/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 47ecdce..bebb6b2 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -470,6 +470,14 @@ class Md2Po:
                 entry.tcomment = _equal_entry.tcomment
                 remove_entry(self.pofile, _equal_entry)
                 self.pofile.append(entry)
+            elif occurrence and not find_entry_in_entries(
+                entry,
+                self.found_entries,
+                compare_msgstr=False,
+                compare_occurrences=False,
+            ):
+                # location of the first time that the message is found
+                _equal_entry.occurrences = entry.occurrences
         self.found_entries.append(entry)
 
     def _save_current_msgid(
-- 
2.43.0


From ffca7e3ea8bc60fd25198f757d3be5f0f4b25c53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 35/96] fix: do not extract the titles of disabled messages in
 plaintext mode

---
 src/mdpo/md2po/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index bebb6b2..12893b6 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -728,7 +728,10 @@ class Md2Po:
             return
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
-                details['title']:
+                details['title'] and (
+                    self.enable_next_block or
+                    not (self.disable or self.disable_next_block)
+        ):
             self._save_msgid(attribute_text(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
-- 
2.43.0


From ff6db74f55ee2ece54b6e8a2c5117366ea8d7918 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 36/96] fix: find files with special characters of globs in
 their names

---
 src/mdpo/io.py                | 19 ++++++++++++++++++-
 src/mdpo/md2po/__init__.py    |  4 ++--
 src/mdpo/md2po2md/__init__.py |  4 ++--
 src/mdpo/po.py                |  6 ++----
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 242e924..2fc8ac5 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -76,6 +76,23 @@ def to_file_content_if_is_file(value, encoding='utf-8'):
     return value
 
 
+def glob_paths(path_or_glob):
+    """Return the paths that match a glob.
+
+    The path of an existing file is itself, although it includes characters
+    that are special in globs.
+
+    Args:
+        path_or_glob (str): Path of a file or glob.
+
+    Returns:
+        list: Paths of the files.
+    """
+    if os.path.isfile(path_or_glob):
+        return [path_or_glob]
+    return glob.glob(path_or_glob)
+
+
 def to_files_or_content(value):
     """File path/glob/content disambiguator.
 
@@ -92,7 +109,7 @@ def to_files_or_content(value):
         a list of files is passed or a string).
     """
     try:
-        parsed = glob.glob(value)
+        parsed = glob_paths(value)
     except TypeError:
         # inferes list
         return (True, value)
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 12893b6..bbac9f4 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1,7 +1,6 @@
 """Markdown to PO files extractor according to mdpo specification."""
 
 import contextlib
-import glob
 import os
 
 import md4c
@@ -15,6 +14,7 @@ from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import (
     filter_paths,
     flatten,
+    glob_paths,
     save_file_checking_file_changed,
     to_files_or_content,
 )
@@ -150,7 +150,7 @@ class Md2Po:
         is_glob, files_or_content = to_files_or_content(files_or_content)
         if is_glob:
             self.filepaths = filter_paths(
-                flatten(glob.glob(globpath) for globpath in files_or_content),
+                flatten(glob_paths(path) for path in files_or_content),
                 ignore_paths=kwargs.get('ignore', []),
             )
         else:
diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 39a4554..50e8d66 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -1,8 +1,8 @@
 """Markdown to PO file to Markdown translator."""
 
-import glob
 import os
 
+from mdpo.io import glob_paths
 from mdpo.md2po import Md2Po
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
@@ -89,7 +89,7 @@ def markdown_to_pofile_to_markdown(
         )
 
     try:
-        input_paths_glob_ = glob.glob(input_paths_glob)
+        input_paths_glob_ = glob_paths(input_paths_glob)
     except Exception as err:
         if (
             err.__module__ in ['re', 'sre_constants']
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 24d4d48..0fba9d7 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -1,10 +1,8 @@
 """PO files related stuff."""
 
-import glob
-
 import polib
 
-from mdpo.io import filter_paths
+from mdpo.io import filter_paths, glob_paths
 from mdpo.polib import poentry__cmp__
 
 
@@ -173,7 +171,7 @@ def paths_or_globs_to_unique_pofiles(pofiles_globs, ignore, po_encoding=None):
 
     for pofiles_glob in pofiles_globs:
         for po_filepath in filter_paths(
-            glob.glob(pofiles_glob),
+            glob_paths(pofiles_glob),
             ignore_paths=ignore,
         ):
             if po_filepath not in _po_filepaths:
-- 
2.43.0


From 9dd43cefecb450a4fc85262fe30bbfd8314a8779 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 37/96] fix: unescape all the escaped separators of key-value
 arguments

---
 src/mdpo/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index bf62f9a..c749c9e 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -104,7 +104,7 @@ def parse_escaped_pair(value, separator=':'):
     if len(splits) == 1:
         raise ValueError()
     return (
-        (splits[0] + splits[1][0]).replace(rf'\\{separator}', separator, 1),
+        re.sub(rf'\\+{separator}', separator, splits[0] + splits[1][0]),
         splits[2].lstrip(),
     )
 
-- 
2.43.0


From d5e5a79fd33ff7acef833677f2dc6e322d5ad988 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 38/96] fix: import the file of the path of an event function,
 not other module

---
 src/mdpo/event.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 3f7ca7f..a0f2462 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -175,7 +175,9 @@ def parse_events_kwarg(events_kwarg):
                         f" '{event_name}' not found",
                     )
 
-                modname = os.path.splitext(fpath)[0].replace(os.sep, '.')
+                modname = os.path.splitext(
+                    os.path.realpath(fpath),
+                )[0].replace(os.sep, '.')
                 if modname in sys.modules:
                     mod = sys.modules[modname]
                 else:
-- 
2.43.0


From ddb100979c23721fdb3b5eb89e17e7879d8d6198 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 39/96] fix: run all the functions passed to the argument
 '--event' for an event

---
 src/mdpo/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/cli.py b/src/mdpo/cli.py
index 497fbd3..b1ade8d 100644
--- a/src/mdpo/cli.py
+++ b/src/mdpo/cli.py
@@ -329,12 +329,12 @@ def parse_event_argument(value):
             ``event_name: path/to/file.py::func``.
 
     Returns:
-        dict: Mapping of event names and `file::function` paths.
+        dict: Mapping of event names and lists of `file::function` paths.
     """
     events = {}
     for event_name_filefunc in value:
         event_name, filefunc = event_name_filefunc.split(':', maxsplit=1)
-        events[event_name.strip()] = filefunc.strip()
+        events.setdefault(event_name.strip(), []).append(filefunc.strip())
     return events
 
 
-- 
2.43.0


From 620ee70b5aa71ddb9b4520e722244668a330c2c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 40/96] fix: include the X-Generator header in plaintext mode
 too

---
 src/mdpo/md2po/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index bbac9f4..48ab601 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -245,6 +245,12 @@ class Md2Po:
         )
 
         self.metadata = kwargs.get('metadata') or {}
+        _include_xheader = kwargs.get('xheader', False)
+
+        if _include_xheader:
+            from mdpo.compat import importlib_metadata
+            version = importlib_metadata.version('mdpo')
+            self.metadata.update({'X-Generator': f'mdpo v{version}'})
 
         self.location = kwargs.get('location', True)
         # "top level" here because blocks inside blocks are not taken into
@@ -282,13 +288,6 @@ class Md2Po:
                 self.code_end_string,
             )
 
-            _include_xheader = kwargs.get('xheader', False)
-
-            if _include_xheader:
-                from mdpo.compat import importlib_metadata
-                version = importlib_metadata.version('mdpo')
-                self.metadata.update({'X-Generator': f'mdpo v{version}'})
-
             self._enterspan_replacer = {
                 md4c.SpanType.STRONG.value: self.bold_start_string,
                 md4c.SpanType.EM.value: self.italic_start_string,
-- 
2.43.0


From b810ad2634eb28311691b1775864da4c59aeba5a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 41/96] fix: use the width for PO files of md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 50e8d66..c68311d 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -154,7 +154,6 @@ def markdown_to_pofile_to_markdown(
                 command_aliases=command_aliases,
                 debug=debug,
                 location=location,
-                wrapwidth=po_wrapwidth,
                 include_codeblocks=include_codeblocks,
                 _check_saved_files_changed=_check_saved_files_changed,
                 **(md2po_kwargs or {}),
@@ -164,6 +163,7 @@ def markdown_to_pofile_to_markdown(
                 po_filepath=po_filepath,
                 po_encoding=po_encoding,
                 md_encoding=md_encoding,
+                wrapwidth=po_wrapwidth,
             )
             if _check_saved_files_changed and _saved_files_changed is False:
                 _saved_files_changed = md2po._saved_files_changed
-- 
2.43.0


From f971cdc2518676f2ed85b14dfc8cf599f989b3f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 42/96] fix: pass the extensions of md2po2md to the translator
 too

---
 src/mdpo/md2po2md/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index c68311d..9bb4fb0 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -171,6 +171,7 @@ def markdown_to_pofile_to_markdown(
             # po2md
             po2md = Po2Md(
                 [po_filepath],
+                extensions=extensions,
                 command_aliases=command_aliases,
                 debug=debug,
                 po_encoding=po_encoding,
-- 
2.43.0


From 4317ace02c87771eb35e34d969b317662fe5544c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 43/96] fix: write in the directory of a language files with
 its name

---
 src/mdpo/md2po2md/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 9bb4fb0..56925f4 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -126,7 +126,13 @@ def markdown_to_pofile_to_markdown(
             po_basename = os.path.basename(po_filepath)
             po_dirpath = (
                 os.path.dirname(po_filepath)
-                if (po_basename.count('.') or file_basename == po_basename)
+                if (
+                    po_basename.count('.')
+                    or (
+                        '{basename}' in os.path.basename(output_paths_schema)
+                        and file_basename == po_basename
+                    )
+                )
                 else po_filepath
             )
 
-- 
2.43.0


From 29d00a74761198b35facf260db8c344629ef7912 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 44/96] fix: translate the text after thematic breaks in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 1d2afc2..e5658e2 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -312,7 +312,8 @@ class MdPo2HTML(HTMLParser):
     def handle_starttag(self, tag, attrs):
 
         if tag in self.ignore_grouper_tags:
-            self.context.append(tag)
+            if tag != 'hr':  # has no end tag
+                self.context.append(tag)
             attrs_repr = (
                 f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
             )
-- 
2.43.0


From aa295a10d21f171ecf1406e81b5e8a8d85ecb7a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 45/96] fix: translate ordered lists in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index e5658e2..55fee89 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -320,7 +320,7 @@ class MdPo2HTML(HTMLParser):
             self.output += f'<{tag}{attrs_repr}>'
         elif (
             (self.context and self.context[0] in self.ignore_grouper_tags)
-            or (tag == 'ul' and not self.context)
+            or (tag in {'ul', 'ol'} and not self.context)
             or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
         ):
             attrs_repr = (
@@ -350,7 +350,9 @@ class MdPo2HTML(HTMLParser):
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._process_replacer()
-        elif tag in ['ul', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+        elif tag in [
+            'ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody',
+        ]:
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
-- 
2.43.0


From ad73bd1cdd7a94f59f373a89ffede05878b226ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 46/96] fix: do not repeat the end tags of the items of loose
 lists in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 55fee89..387796b 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -246,6 +246,15 @@ class MdPo2HTML(HTMLParser):
                     )
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
+        if (
+            '{}' not in raw_html_template
+            and not _current_replacement.strip()
+        ):
+            # tags without text
+            self.output += raw_html_template
+            self.context = []
+            return
+
         _current_replacement = html.unescape(_current_replacement)
 
         if (self.disable and not self.enable_next_block) \
-- 
2.43.0


From 224c66cfe3fadf43bdcf15f4eba9787a59b8c07c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 47/96] fix: translate the items of nested lists in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 387796b..d53117f 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -26,6 +26,10 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+BLOCK_TAGS = [
+    *PROCESS_REPLACER_TAGS, 'ul', 'ol', 'blockquote', 'table', 'pre', 'div',
+    'hr',
+]
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
@@ -320,6 +324,10 @@ class MdPo2HTML(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
 
+        if self.replacer and tag in BLOCK_TAGS:
+            # text of a block which includes other, like list items
+            self._process_replacer()
+
         if tag in self.ignore_grouper_tags:
             if tag != 'hr':  # has no end tag
                 self.context.append(tag)
-- 
2.43.0


From a9cdca4fa05b63e95edbe4dfcfb56eca309e4c28 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 48/96] fix: keep code blocks in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index d53117f..a7056b9 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -62,7 +62,7 @@ class MdPo2HTML(HTMLParser):
         italic_tags=frozenset(['em', 'i']),
         link_tags=frozenset(['a']),
         image_tags=frozenset(['img']),
-        ignore_grouper_tags=frozenset(['div', 'hr']),
+        ignore_grouper_tags=frozenset(['div', 'hr', 'pre']),
         po_encoding=None,
         command_aliases=None,
         _check_saved_files_changed=None,
-- 
2.43.0


From f8d8be72f81925c923090b7baf1fbe23e6f04a5a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 49/96] fix: escape the values of attributes in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index a7056b9..e00f4a1 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -46,7 +46,7 @@ def _html_attrs_to_str(attrs):
     for name, value in attrs.items():
         response += name
         if value is not None:
-            response += f'="{value}"'
+            response += f'="{html.escape(value)}"'
         response += ' '
     return response.rstrip(' ')
 
-- 
2.43.0


From b32e2f9b98fc253255250c460f3d2022764f74b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 50/96] fix: escape texts that are not translated in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index e00f4a1..c865f76 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -394,7 +394,11 @@ class MdPo2HTML(HTMLParser):
                 )
                 or not self.context
             ):
-                self.output += data
+                # the data of scripts and styles is not unescaped
+                self.output += (
+                    data if self.cdata_elem
+                    else html.escape(data, quote=False)
+                )
             else:
                 if self.context:
                     data = data.replace('\n', ' ')
-- 
2.43.0


From ecbceee4ac691c91d3eea5824f98be21b395e471 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 51/96] fix: translate images whose tags are not self-closing
 in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index c865f76..9873ff0 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -353,8 +353,11 @@ class MdPo2HTML(HTMLParser):
                 )
                 self.translations.update(self.real_link_reference_targets)
 
-            self.replacer.append(('start', tag, OrderedDict(attrs)))
-            self.context.append(tag)
+            if tag in self.image_tags:  # without end tag, as '<img>'
+                self.replacer.append(('startend', tag, OrderedDict(attrs)))
+            else:
+                self.replacer.append(('start', tag, OrderedDict(attrs)))
+                self.context.append(tag)
 
     def handle_endtag(self, tag):
 
-- 
2.43.0


From bb67a4a28efc92429fbb36c02385037224207bfb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 52/96] fix: do not repeat the end tag of links at the end of
 blocks

---
 src/mdpo/mdpo2html/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9873ff0..519fb52 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -299,6 +299,9 @@ class MdPo2HTML(HTMLParser):
                     html_after_last_replacement.split(f'</{tag}>')[-1]
             html_before_first_replacement = \
                 html_before_first_replacement.split('<a href="')[0]
+        for tag in self.link_tags:
+            html_after_last_replacement = \
+                html_after_last_replacement.split(f'</{tag}>')[-1]
 
         html_inner = '\n'.join(
             self.html_renderer.parse(replacement).split('\n')[:-1],
-- 
2.43.0


From f24cf6ce7a5f101e082add3f4bbc7e001d86268c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 53/96] fix: translate code spans with backticks in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 519fb52..5889c9b 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -20,6 +20,7 @@ from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
 )
+from mdpo.text import codespan_delimiters
 
 
 PROCESS_REPLACER_TAGS = [
@@ -163,6 +164,7 @@ class MdPo2HTML(HTMLParser):
         _last_start_tag = None
         _last_end_tag = None
         _inside_code = False
+        _codespan_index = 0
         while self.replacer:
             handle, handled, attrs = self.replacer.pop(0)
             if handle == 'start':
@@ -173,7 +175,7 @@ class MdPo2HTML(HTMLParser):
                 )
 
                 if handled in self.code_tags:
-                    _current_replacement += '`'
+                    _codespan_index = len(_current_replacement)
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
@@ -224,7 +226,12 @@ class MdPo2HTML(HTMLParser):
             elif handle == 'end':
                 raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
-                    _current_replacement += '`'
+                    code = _current_replacement[_codespan_index:]
+                    start, end = codespan_delimiters('`', '`', code)
+                    _current_replacement = (
+                        f'{_current_replacement[:_codespan_index]}'
+                        f'{start}{code}{end}'
+                    )
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
-- 
2.43.0


From 3857f72901cc7216e04cdb4f6c3fc0f0777ec1a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 54/96] fix: translate links with other markup inside in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 46 ++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5889c9b..be2403d 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -15,7 +15,7 @@ from mdpo.command import (
     parse_mdpo_html_command,
 )
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import solve_link_reference_targets
+from mdpo.md import inline_link_target, solve_link_reference_targets
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
@@ -159,7 +159,8 @@ class MdPo2HTML(HTMLParser):
         template_tags = []
         raw_html_template, _current_replacement = ('', '')
 
-        _current_link_target = ''
+        # index of the start, target and title of the current link
+        _link = None
 
         _last_start_tag = None
         _last_end_tag = None
@@ -183,12 +184,12 @@ class MdPo2HTML(HTMLParser):
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
                     raw_html_template += f'<{handled}{attrs_repr}>'
-                elif handled in self.link_tags:
-                    title, href = attrs.get('title'), attrs['href']
-                    _current_link_target += f'({href}'
-                    if title:
-                        _current_link_target += f' "{title}"'
-                    _current_link_target += ')'
+                elif handled in self.link_tags and 'href' in attrs:
+                    _link = (
+                        len(_current_replacement),
+                        attrs['href'] or '',
+                        attrs.get('title') or '',
+                    )
 
                     raw_html_template += f'<{handled}'
 
@@ -216,13 +217,7 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += handled
                 else:
                     raw_html_template += '{}'
-                    if _current_link_target:
-                        _current_replacement += (
-                            f'[{handled}]{_current_link_target}'
-                        )
-                        _current_link_target = ''
-                    else:
-                        _current_replacement += handled
+                    _current_replacement += handled
             elif handle == 'end':
                 raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
@@ -236,6 +231,14 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
+                elif handled in self.link_tags and _link:
+                    index, href, title = _link
+                    text = _current_replacement[index:]
+                    target = inline_link_target(href, title)
+                    _current_replacement = (
+                        f'{_current_replacement[:index]}[{text}]({target})'
+                    )
+                    _link = None
                 _last_end_tag = handled
                 if _last_end_tag == 'code':
                     _inside_code = False
@@ -243,12 +246,13 @@ class MdPo2HTML(HTMLParser):
                 raw_html_template += f'<!--{handled}-->'
             elif handle == 'startend':
                 if handled in self.image_tags:
-                    alt, src = attrs.get('alt', ''), attrs['src']
-                    _current_replacement += f'![{alt}]({src}'
-                    title = attrs.get('title')
-                    if title:
-                        _current_replacement += f' "{title}"'
-                    _current_replacement += ')'
+                    target = inline_link_target(
+                        attrs.get('src') or '',
+                        attrs.get('title') or '',
+                    )
+                    _current_replacement += (
+                        f'![{attrs.get("alt") or ""}]({target})'
+                    )
 
                     raw_html_template += '{}'
                 else:
-- 
2.43.0


From e2d3d15627d7cacc1d62220bda09c5bab971b2e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 55/96] fix: do not unescape twice the texts in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index be2403d..ce40991 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -270,8 +270,6 @@ class MdPo2HTML(HTMLParser):
             self.context = []
             return
 
-        _current_replacement = html.unescape(_current_replacement)
-
         if (self.disable and not self.enable_next_block) \
                 or self.disable_next_block:
             replacement = _current_replacement
-- 
2.43.0


From 8e753bf3771021aa36991dcc4e8dd13f61ed9bf7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 56/96] fix: do not render as other blocks the texts of
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index ce40991..0f79f41 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -312,10 +312,11 @@ class MdPo2HTML(HTMLParser):
             html_after_last_replacement = \
                 html_after_last_replacement.split(f'</{tag}>')[-1]
 
+        # the point prevents that the text is other block, like a list
         html_inner = '\n'.join(
-            self.html_renderer.parse(replacement).split('\n')[:-1],
+            self.html_renderer.parse(f'.{replacement.lstrip()}').split('\n')[:-1],
         )
-        html_inner = '>'.join(html_inner.split('>')[1:])
+        html_inner = '>'.join(html_inner.split('>')[1:])[1:]
         html_inner = '<'.join(html_inner.split('<')[:-1])
 
         html_template = html_before_first_replacement + html_inner + \
-- 
2.43.0


From ce0cfac1805c6eb905c56839f5f8a6eea9a6b198 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 57/96] fix: keep as they are the texts without translation in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 41 ++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 0f79f41..0cb04b8 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -158,6 +158,7 @@ class MdPo2HTML(HTMLParser):
 
         template_tags = []
         raw_html_template, _current_replacement = ('', '')
+        original_html = ''
 
         # index of the start, target and title of the current link
         _link = None
@@ -168,12 +169,10 @@ class MdPo2HTML(HTMLParser):
         _codespan_index = 0
         while self.replacer:
             handle, handled, attrs = self.replacer.pop(0)
+            attrs_repr = f' {_html_attrs_to_str(attrs)}' if attrs else ''
             if handle == 'start':
                 template_tags.append(handled)
-
-                attrs_repr = (
-                    f' {_html_attrs_to_str(attrs)}' if attrs else ''
-                )
+                original_html += f'<{handled}{attrs_repr}>'
 
                 if handled in self.code_tags:
                     _codespan_index = len(_current_replacement)
@@ -208,6 +207,7 @@ class MdPo2HTML(HTMLParser):
                     _inside_code = True
 
             elif handle == 'data':
+                original_html += html.escape(handled, quote=False)
                 if not _inside_code:
                     while '  ' in handled:
                         handled = handled.replace('  ', ' ')
@@ -219,6 +219,7 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += '{}'
                     _current_replacement += handled
             elif handle == 'end':
+                original_html += f'</{handled}>'
                 raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
                     code = _current_replacement[_codespan_index:]
@@ -243,8 +244,10 @@ class MdPo2HTML(HTMLParser):
                 if _last_end_tag == 'code':
                     _inside_code = False
             elif handle == 'comment':
+                original_html += f'<!--{handled}-->'
                 raw_html_template += f'<!--{handled}-->'
             elif handle == 'startend':
+                original_html += f'<{handled}{attrs_repr}/>'
                 if handled in self.image_tags:
                     target = inline_link_target(
                         attrs.get('src') or '',
@@ -256,9 +259,6 @@ class MdPo2HTML(HTMLParser):
 
                     raw_html_template += '{}'
                 else:
-                    attrs_repr = (
-                        f' {_html_attrs_to_str(attrs)}' if attrs else ''
-                    )
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
         if (
@@ -272,11 +272,11 @@ class MdPo2HTML(HTMLParser):
 
         if (self.disable and not self.enable_next_block) \
                 or self.disable_next_block:
-            replacement = _current_replacement
+            replacement = None
 
             self.disabled_entries.append(
                 polib.POEntry(
-                    msgid=replacement,
+                    msgid=_current_replacement,
                     msgstr='',
                     msgctxt=self.current_msgctxt,
                 ),
@@ -288,8 +288,6 @@ class MdPo2HTML(HTMLParser):
                 ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
-            if not replacement:
-                replacement = _current_replacement
 
         for tt in template_tags:
             for tags_group in [self.bold_tags, self.italic_tags]:
@@ -312,15 +310,20 @@ class MdPo2HTML(HTMLParser):
             html_after_last_replacement = \
                 html_after_last_replacement.split(f'</{tag}>')[-1]
 
-        # the point prevents that the text is other block, like a list
-        html_inner = '\n'.join(
-            self.html_renderer.parse(f'.{replacement.lstrip()}').split('\n')[:-1],
-        )
-        html_inner = '>'.join(html_inner.split('>')[1:])[1:]
-        html_inner = '<'.join(html_inner.split('<')[:-1])
+        if replacement:
+            # the point prevents that the text is other block, like a list
+            html_inner = '\n'.join(
+                self.html_renderer.parse(
+                    f'.{replacement.lstrip()}',
+                ).split('\n')[:-1],
+            )
+            html_inner = '>'.join(html_inner.split('>')[1:])[1:]
+            html_inner = '<'.join(html_inner.split('<')[:-1])
 
-        html_template = html_before_first_replacement + html_inner + \
-            html_after_last_replacement
+            html_template = html_before_first_replacement + html_inner + \
+                html_after_last_replacement
+        else:
+            html_template = original_html
 
         if self.merge_adjacent_markups:
             html_template = self._merge_adyacent_tags(
-- 
2.43.0


From fb1bcef9e8dbe9f3a2bb8988551ab36898be3b8b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 58/96] fix: translate all the kinds of reference links in
 mdpo2html

---
 src/mdpo/md.py                 | 122 +++++++++------------------------
 src/mdpo/mdpo2html/__init__.py |  12 +++-
 2 files changed, 43 insertions(+), 91 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index dec1e10..280b89e 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -6,10 +6,6 @@ import md4c
 import md_ulb_pwrap
 
 
-LINK_REFERENCE_REGEX = (
-    r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
-)
-
 LINK_REFERENCE_DEFINITION_RE = re.compile(
     r'^[ \t>]*\[((?:[^\[\]\\\n]|\\.)+)\]:[ \t]*(?:\n[ \t>]*)?'
     r'(?:<((?:[^<>\\\n]|\\.)*)>|([^\s<]\S*))'
@@ -132,7 +128,7 @@ def parse_link_references(content):
     return response
 
 
-def solve_link_reference_targets(translations):
+def solve_link_reference_targets(translations, definitions=None):
     """Solve link reference targets in markdown blocks.
 
     Given a dictionary of msgid/msgstr translations, those link references
@@ -141,98 +137,44 @@ def solve_link_reference_targets(translations):
     Args:
         translations (dict): Mapping of msgid-msgstr entries from which
             the resolved translations will be extracted.
+        definitions (dict): Mapping of msgid-msgstr entries in which the link
+            reference definitions are found. By default, ``translations``.
 
     Returns:
         dict: New created messages with solved link reference targets.
     """
-    link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
-    link_reference_re = re.compile(LINK_REFERENCE_REGEX)
-
-    solutions = {}
-
-    # dictionary with defined link references and their targets
-    link_references_text_targets = []
-
-    # compound by dictionaries with `original_msgid`, `original_msgstr` and
-    # `link_reference_matchs`
-    msgid_msgstrs_with_links = []
+    msgid_targets, msgstr_targets = ({}, {})
 
     # discover link reference definitions
-    for msgid, msgstr in translations.items():
-        if msgid.startswith('['):  # filter for performance improvement
-            msgid_match = re.search(link_reference_re, msgid.lstrip(' '))
-            if msgid_match:
-                msgstr_match = re.search(link_reference_re, msgstr.lstrip(' '))
-                if msgstr_match:
-                    link_references_text_targets.append((
-                        msgid_match.groups(),
-                        msgstr_match.groups(),
-                    ))
-        msgid_matchs = re.findall(link_refereced_link_re, msgid)
-        if msgid_matchs:
-            msgstr_matchs = re.findall(link_refereced_link_re, msgstr)
-            if msgstr_matchs:
-                msgid_msgstrs_with_links.append((
-                    msgid, msgstr, msgid_matchs, msgstr_matchs,
-                ))
-
-    # original msgid, original msgstr,
-    # msgid link reference matchs, msgstr link reference matchs
-    for (
-            orig_msgid, orig_msgstr, msgid_linkr_groups, msgstr_linkr_groups,
-    ) in msgid_msgstrs_with_links:
-        # search if msgid and link reference matchs are inside
-        # `link_references_text_targets`
-        #
-        # if so, replace in original messages link referenced targets with
-        # real targets and store them in solutions
-        new_msgid, new_msgstr = (None, None)
-
-        for msgid_linkr_group in msgid_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[0][0] == msgid_linkr_group[1]:
-                    replacer = (
-                        f'[{msgid_linkr_group[0]}][{msgid_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgid_linkr_group[0]}]'
-                        f'({link_reference_text_targets[0][1]})'
-                    )
-
-                    if new_msgid is None:
-                        # first referenced link replacement in msgid
-                        new_msgid = orig_msgid.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgid = new_msgid.replace(replacer, replacement)
-                    break
-
-        # the same game as above, but now for msgstrs
-
-        for msgstr_linkr_group in msgstr_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[1][0] == msgstr_linkr_group[1]:
-                    replacer = (
-                        f'[{msgstr_linkr_group[0]}][{msgstr_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgstr_linkr_group[0]}]'
-                        f'({link_reference_text_targets[1][1]})'
-                    )
-
-                    if new_msgstr is None:
-                        # first referenced link replacement in msgid
-                        new_msgstr = orig_msgstr.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgstr = new_msgstr.replace(replacer, replacement)
-                    break
-
-        # store in solutions
-        solutions[new_msgid] = new_msgstr
+    for msgid, msgstr in (definitions or translations).items():
+        if not msgid.startswith('['):  # filter for performance improvement
+            continue
+        for targets, text in ((msgid_targets, msgid), (msgstr_targets, msgstr)):
+            for label, href, title in parse_link_references(text):
+                targets.setdefault(
+                    label.lower(),
+                    f'({inline_link_target(href, title)})',
+                )
+    msgstr_targets = {**msgid_targets, **msgstr_targets}
+
+    def solve(text, targets):
+        def replacer(match):
+            link_text, label = match.groups()
+            target = targets.get((label or link_text).lower())
+            return f'[{link_text}]{target}' if target else match.group(0)
+
+        return re.sub(
+            r'\[((?:[^\[\]]|!\[[^\[\]]*\]\([^()]*\))+)\]'
+            r'(?:\[([^\[\]]*)\])?(?![(:])',
+            replacer,
+            text,
+        )
 
+    solutions = {}
+    for msgid, msgstr in translations.items():
+        new_msgid = solve(msgid, msgid_targets)
+        if new_msgid != msgid:
+            solutions[new_msgid] = solve(msgstr, msgstr_targets)
     return solutions
 
 
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 0cb04b8..54b80e5 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -361,12 +361,22 @@ class MdPo2HTML(HTMLParser):
             )
             self.output += f'<{tag}{attrs_repr}>'
         else:
-            if tag == 'a' and self.real_link_reference_targets is None:
+            if (
+                self.real_link_reference_targets is None
+                and (tag in self.link_tags or tag in self.image_tags)
+            ):
                 # extend translations to populate link reference msgid-msgstrs
                 # with real targets
                 self.real_link_reference_targets = (
                     solve_link_reference_targets(self.translations)
                 )
+                for translations in self.translations_with_msgctxt.values():
+                    translations.update(
+                        solve_link_reference_targets(
+                            translations,
+                            definitions=self.translations,
+                        ),
+                    )
                 self.translations.update(self.real_link_reference_targets)
 
             if tag in self.image_tags:  # without end tag, as '<img>'
-- 
2.43.0


From 957e3b5535f5fd5c41fb067bd5f86c2c35e94f82 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 59/96] fix: translate texts with autolinks in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 54b80e5..47ed9f3 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -15,7 +15,11 @@ from mdpo.command import (
     parse_mdpo_html_command,
 )
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import inline_link_target, solve_link_reference_targets
+from mdpo.md import (
+    inline_link_target,
+    is_autolink,
+    solve_link_reference_targets,
+)
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
@@ -235,9 +239,12 @@ class MdPo2HTML(HTMLParser):
                 elif handled in self.link_tags and _link:
                     index, href, title = _link
                     text = _current_replacement[index:]
-                    target = inline_link_target(href, title)
+                    if not title and is_autolink(text, href):
+                        link = f'<{href}>'
+                    else:
+                        link = f'[{text}]({inline_link_target(href, title)})'
                     _current_replacement = (
-                        f'{_current_replacement[:index]}[{text}]({target})'
+                        f'{_current_replacement[:index]}{link}'
                     )
                     _link = None
                 _last_end_tag = handled
-- 
2.43.0


From 4db39c2feb6ae216b6ad0f94df5facdc8ae660cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 60/96] fix: keep the end of the HTML in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 47ed9f3..5b9fed5 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -494,6 +494,9 @@ class MdPo2HTML(HTMLParser):
         )
 
         self.feed(content)
+        self.close()
+        if self.replacer:  # texts that are not inside blocks
+            self._process_replacer()
 
         if save:
             if self._saved_files_changed is False:
-- 
2.43.0


From 41f821e9af2b1c1c4865adb670b07c46b9a0d4bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 61/96] fix: keep the document type of the HTML in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5b9fed5..71e680b 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -483,6 +483,12 @@ class MdPo2HTML(HTMLParser):
                 else:
                     self.output += data_as_comment
 
+    def handle_decl(self, decl):
+        self.output += f'<!{decl}>'
+
+    def handle_pi(self, data):
+        self.output += f'<?{data}>'
+
     def translate(self, filepath_or_content, save=None, html_encoding='utf-8'):
         content = to_file_content_if_is_file(
             filepath_or_content,
-- 
2.43.0


From e8799bc34c2deb2af33a6f20978726d57fb0334e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 62/96] fix: keep the order of the contents in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 71e680b..307baf2 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -406,6 +406,8 @@ class MdPo2HTML(HTMLParser):
         elif tag in [
             'ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody',
         ]:
+            if self.replacer:  # of items without end tag
+                self._process_replacer()
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
@@ -428,7 +430,6 @@ class MdPo2HTML(HTMLParser):
                     self.context
                     and self.context[0] in self.ignore_grouper_tags
                 )
-                or not self.context
             ):
                 # the data of scripts and styles is not unescaped
                 self.output += (
@@ -436,8 +437,7 @@ class MdPo2HTML(HTMLParser):
                     else html.escape(data, quote=False)
                 )
             else:
-                if self.context:
-                    data = data.replace('\n', ' ')
+                data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
 
     def handle_comment(self, data):
-- 
2.43.0


From e51f4343f58f1e4809ae303d70b310b1c5c49e4d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 63/96] fix: translate texts of list items after other blocks
 in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 307baf2..8d6b487 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -81,6 +81,7 @@ class MdPo2HTML(HTMLParser):
         self.replacer = []
         self._raw_replacement = ''
         self.context = []
+        self.lists_depth = 0
         self.current_msgctxt = None
 
         self.translations = None
@@ -351,6 +352,9 @@ class MdPo2HTML(HTMLParser):
             # text of a block which includes other, like list items
             self._process_replacer()
 
+        if tag in {'ul', 'ol'}:
+            self.lists_depth += 1
+
         if tag in self.ignore_grouper_tags:
             if tag != 'hr':  # has no end tag
                 self.context.append(tag)
@@ -394,6 +398,9 @@ class MdPo2HTML(HTMLParser):
 
     def handle_endtag(self, tag):
 
+        if tag in {'ul', 'ol'} and self.lists_depth:
+            self.lists_depth -= 1
+
         if tag in self.ignore_grouper_tags:
             self.output += f'</{tag}>'
             if self.context:
@@ -424,8 +431,17 @@ class MdPo2HTML(HTMLParser):
     def handle_data(self, data):
 
         if data:
+            if self.lists_depth and not self.replacer and not self.context:
+                # text of an item after other blocks
+                text = data.lstrip()
+                self.output += data[:len(data) - len(text)]
+                data = text
+
+            if not data:
+                return
+
             if (
-                not self.replacer
+                (not self.replacer and not self.lists_depth)
                 or (
                     self.context
                     and self.context[0] in self.ignore_grouper_tags
-- 
2.43.0


From 8b25b27a87ed88d2104e9c2f595df7013e68fb6b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 64/96] fix: keep the scripts inside texts in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 8d6b487..f625841 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -211,8 +211,12 @@ class MdPo2HTML(HTMLParser):
                 if _last_start_tag == 'code':
                     _inside_code = True
 
-            elif handle == 'data':
-                original_html += html.escape(handled, quote=False)
+            elif handle in {'data', 'cdata'}:
+                # the data of scripts and styles is not unescaped
+                original_html += (
+                    handled if handle == 'cdata'
+                    else html.escape(handled, quote=False)
+                )
                 if not _inside_code:
                     while '  ' in handled:
                         handled = handled.replace('  ', ' ')
@@ -452,6 +456,8 @@ class MdPo2HTML(HTMLParser):
                     data if self.cdata_elem
                     else html.escape(data, quote=False)
                 )
+            elif self.cdata_elem:
+                self.replacer.append(('cdata', data, None))
             else:
                 data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
-- 
2.43.0


From 27ef48ff7cc0b60cf6757874847ac57a29f7a37d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 65/96] fix: apply commands of mdpo2html to code blocks, not to
 the next text

---
 src/mdpo/mdpo2html/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index f625841..8f158d0 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -409,6 +409,11 @@ class MdPo2HTML(HTMLParser):
             self.output += f'</{tag}>'
             if self.context:
                 self.context.pop()
+            if tag == 'pre':
+                # the block which follows a command can be a code block
+                self.disable_next_block = False
+                self.enable_next_block = False
+                self.current_msgctxt = None
         elif self.context and self.context[0] in self.ignore_grouper_tags:
             self.output += f'</{tag}>'
         elif tag in PROCESS_REPLACER_TAGS:
-- 
2.43.0


From 6e18fb52dc11747c243de34e51e53d4d2c450f29 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 66/96] fix: handle in mdpo2html self-closing tags as those
 without slash

---
 src/mdpo/mdpo2html/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 8f158d0..b1606ed 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -432,6 +432,11 @@ class MdPo2HTML(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
 
+        if self.replacer and (tag in self.image_tags or tag in BLOCK_TAGS):
+            # the same as without the slash, as '<hr>'
+            self.handle_starttag(tag, attrs)
+            return
+
         if not self.replacer:
             self.output += self.get_starttag_text()
         else:
-- 
2.43.0


From d3e84edd6af0691c9c4beb6e5ca2202312b49cec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 67/96] fix: give in mdpo2html to enable-next-block the
 precedence of md2po

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index b1606ed..d7268f4 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -282,8 +282,8 @@ class MdPo2HTML(HTMLParser):
             self.context = []
             return
 
-        if (self.disable and not self.enable_next_block) \
-                or self.disable_next_block:
+        if (self.disable or self.disable_next_block) \
+                and not self.enable_next_block:
             replacement = None
 
             self.disabled_entries.append(
-- 
2.43.0


From cc8c687ec7705de74f737496c9bf82f0e16541f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 68/96] fix: translate in mdpo2html reference links with
 reference images inside

---
 src/mdpo/md.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 280b89e..5608667 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -163,12 +163,16 @@ def solve_link_reference_targets(translations, definitions=None):
             target = targets.get((label or link_text).lower())
             return f'[{link_text}]{target}' if target else match.group(0)
 
-        return re.sub(
-            r'\[((?:[^\[\]]|!\[[^\[\]]*\]\([^()]*\))+)\]'
-            r'(?:\[([^\[\]]*)\])?(?![(:])',
-            replacer,
-            text,
-        )
+        previous = None
+        while text != previous:  # links with images inside after them
+            previous = text
+            text = re.sub(
+                r'(?<!\])\[((?:[^\[\]]|!\[[^\[\]]*\]\([^()]*\))+)\]'
+                r'(?:\[([^\[\]]*)\])?(?![(:])',
+                replacer,
+                text,
+            )
+        return text
 
     solutions = {}
     for msgid, msgstr in translations.items():
-- 
2.43.0


From 038c1e9fac9cac8be51c97c15e5aa41eae08ae19 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 69/96] fix: keep in mdpo2html attributes and comments with
 braces

---
 src/mdpo/mdpo2html/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index d7268f4..8085bb1 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -36,6 +36,7 @@ BLOCK_TAGS = [
     'hr',
 ]
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
+TEXT_PLACEHOLDER = '\0'  # HTML documents can not contain it
 
 
 def _html_attrs_to_str(attrs):
@@ -199,7 +200,7 @@ class MdPo2HTML(HTMLParser):
 
                     for attr in attrs:
                         if attr in ['title', 'href']:
-                            raw_html_template += f' {attr}="{{}}"'
+                            raw_html_template += f' {attr}="{TEXT_PLACEHOLDER}"'
                         #     These attributes are not included in output
                     # if attrs_except_href_title:
                     # raw_html_template += _html_attrs_to_str(
@@ -225,7 +226,7 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += handled
                     _current_replacement += handled
                 else:
-                    raw_html_template += '{}'
+                    raw_html_template += TEXT_PLACEHOLDER
                     _current_replacement += handled
             elif handle == 'end':
                 original_html += f'</{handled}>'
@@ -269,12 +270,12 @@ class MdPo2HTML(HTMLParser):
                         f'![{attrs.get("alt") or ""}]({target})'
                     )
 
-                    raw_html_template += '{}'
+                    raw_html_template += TEXT_PLACEHOLDER
                 else:
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
         if (
-            '{}' not in raw_html_template
+            TEXT_PLACEHOLDER not in raw_html_template
             and not _current_replacement.strip()
         ):
             # tags without text
@@ -308,8 +309,10 @@ class MdPo2HTML(HTMLParser):
                         if tag not in template_tags:
                             template_tags.append(tag)
 
-        html_before_first_replacement = raw_html_template.split('{')[0]
-        html_after_last_replacement = raw_html_template.split('}')[-1]
+        html_before_first_replacement = \
+            raw_html_template.split(TEXT_PLACEHOLDER)[0]
+        html_after_last_replacement = \
+            raw_html_template.split(TEXT_PLACEHOLDER)[-1]
         for tags_group in [self.bold_tags, self.italic_tags, self.code_tags]:
             for tag in tags_group:
                 html_before_first_replacement = \
-- 
2.43.0


From 7a53853447414b9786a3f26f030816cd12879698 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 70/96] fix: keep in mdpo2html the line breaks before other
 comments

---
 src/mdpo/mdpo2html/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 8085bb1..507a440 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -487,6 +487,7 @@ class MdPo2HTML(HTMLParser):
             if command is None:
                 self.output += data_as_comment
             else:
+                previous_output = self.output
                 self._remove_lastline_from_output_if_empty()
 
                 with contextlib.suppress(KeyError):  # not custom command
@@ -516,7 +517,7 @@ class MdPo2HTML(HTMLParser):
                         stacklevel=2,
                     )
                 else:
-                    self.output += data_as_comment
+                    self.output = previous_output + data_as_comment
 
     def handle_decl(self, decl):
         self.output += f'<!{decl}>'
-- 
2.43.0


From 6d6de870b7bc0c78e86971869244beaf01757559 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 71/96] fix: translate without the extension of LaTeX spans

---
 src/mdpo/po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index b098cc3..f64368e 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -280,9 +280,9 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
-        if 'latex_math_spans' in self.extensions:
-            self._inside_latexmath_display = False
+        self._inside_latexmath_display = False
 
+        if 'latex_math_spans' in self.extensions:
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
-- 
2.43.0


From e9a1aaac50214e715b65ef2323e01038ff91617a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 72/96] fix: extract underlined texts with one underscore and
 other markup inside

---
 src/mdpo/md2po/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 48ab601..29ec7b0 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -370,7 +370,7 @@ class Md2Po:
             # optimization to skip checking for
             # ``self.md4c_generic_parser_kwargs.get('underline')``
             # inside spans
-            self._inside_uspan = False
+            self._inside_uspan = 0
 
         self._inside_htmlblock = False
         self._inside_codeblock = False
@@ -744,7 +744,7 @@ class Md2Po:
             return
 
         # underline spans for double '_' character enters two times
-        if not self._inside_uspan:
+        if span is not md4c.SpanType.U or not self._inside_uspan:
             if self._inside_aspan:  # span inside link text
                 with contextlib.suppress(KeyError):
                     self._current_aspan_text += self._enterspan_replacer[
@@ -796,7 +796,7 @@ class Md2Po:
             self._current_imgspan['text'] = ''
             self._current_imgspan['spans_inside'] = 0
         elif span is md4c.SpanType.U:
-            self._inside_uspan = True
+            self._inside_uspan += 1
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -816,7 +816,10 @@ class Md2Po:
             self._current_imgspan['spans_inside'] -= 1
             return
 
-        if not self._inside_uspan:
+        if span is md4c.SpanType.U:
+            self._inside_uspan -= 1
+
+        if span is not md4c.SpanType.U or not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
                 target = attribute_text(details['target'])
                 start = self._current_wikilink_start_index
@@ -904,8 +907,6 @@ class Md2Po:
                 self._current_aspan_text += img_markup
             else:
                 self.current_msgid += img_markup
-        elif span is md4c.SpanType.U:
-            self._inside_uspan = False
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_msgid += self._inside_latexmath_display_text
-- 
2.43.0


From 1b62bf6a9624cf5b568fad8d1342fff741570930 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 73/96] fix: keep underlined texts translating

---
 src/mdpo/po2md/__init__.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f64368e..4bb92ef 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -122,6 +122,7 @@ class Po2Md:
         '_inside_aspan',
         '_inside_codespan',
         '_inside_latexmath_display',
+        '_inside_uspan',
         '_codespan_text',
         '_codespan_inside_current_msgid',
         '_containers',
@@ -280,6 +281,12 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
+        if 'underline' in self.extensions:
+            # underline text is standarized with double '_'
+            self._enterspan_replacer[md4c.SpanType.U.value] = '__'
+            self._leavespan_replacer[md4c.SpanType.U.value] = '__'
+
+        self._inside_uspan = 0
         self._inside_latexmath_display = False
 
         if 'latex_math_spans' in self.extensions:
@@ -811,6 +818,12 @@ class Po2Md:
             self._current_imgspan['spans_inside'] += 1
             return
 
+        if span is md4c.SpanType.U:
+            # underline spans for double '_' character enters two times
+            self._inside_uspan += 1
+            if self._inside_uspan > 1:
+                return
+
         with contextlib.suppress(KeyError):
             if self._inside_aspan:  # span inside link text
                 self._current_aspan_text += self._enterspan_replacer[span.value]
@@ -877,6 +890,11 @@ class Po2Md:
             self._current_imgspan['spans_inside'] -= 1
             return
 
+        if span is md4c.SpanType.U:
+            self._inside_uspan -= 1
+            if self._inside_uspan:
+                return
+
         if span is md4c.SpanType.WIKILINK:
             target = attribute_text(details['target'])
             start = self._current_wikilink_start_index
-- 
2.43.0


From e9b51aa4a048b1fb06f9818450420bf4faf5ba17 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 74/96] fix: keep the marks of ordered task lists

---
 src/mdpo/po2md/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 4bb92ef..796e8e7 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -658,14 +658,13 @@ class Po2Md:
                 # inside OL
                 self._ol_marks[-1][0] += 1
                 self.current_line += f'1{self._ol_marks[-1][1]} '
-                self._current_list_type[-1][-1].append(False)
             else:
                 # inside UL
                 self.current_line += f'{self._ul_marks[-1]} '
-                if details['is_task']:
-                    mark = details['task_mark']
-                    self.current_line += f'[{mark}] '
-                self._current_list_type[-1][-1].append(details['is_task'])
+            if details['is_task']:
+                mark = details['task_mark']
+                self.current_line += f'[{mark}] '
+            self._current_list_type[-1][-1].append(details['is_task'])
             self._containers.append(list_type)
             self._inside_liblock = True
         elif block is md4c.BlockType.UL:
-- 
2.43.0


From 8c9e87fae4986581a09eaed6a081c8cfaa04d7b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 75/96] fix: do not truncate files with contents that can not
 be encoded

---
 src/mdpo/io.py                 | 21 +++++++++++++++++----
 src/mdpo/md2po/__init__.py     |  2 ++
 src/mdpo/mdpo2html/__init__.py |  9 ++++++---
 src/mdpo/po2md/__init__.py     |  9 ++++++---
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 2fc8ac5..df9e5d5 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -1,6 +1,7 @@
 """mdpo I/O utilities."""
 
 import glob
+import locale
 import os
 from contextlib import contextmanager
 
@@ -124,6 +125,20 @@ def to_files_or_content(value):
     return (True, parsed)
 
 
+def save_file(filepath, content, encoding='utf-8'):
+    """Save a file, which is left as is if the content can not be encoded.
+
+    Args:
+        filepath (str): Path to the file to save.
+        content (str): Content to save.
+        encoding (str): Encoding to use when saving the file.
+    """
+    # opening the file truncates it
+    content.encode(encoding or locale.getpreferredencoding(False))
+    with open(filepath, 'w', encoding=encoding) as f:
+        f.write(content)
+
+
 def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
     """Save a file checking if the content has changed.
 
@@ -136,8 +151,7 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
         bool: If the PO file content has been changed.
     """
     if not os.path.isfile(filepath):
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
+        save_file(filepath, content, encoding=encoding)
         return True
 
     try:
@@ -147,8 +161,7 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
         prev_content = None
     changed = prev_content != content
     if changed:
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
+        save_file(filepath, content, encoding=encoding)
     return changed
 
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 29ec7b0..d218395 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1083,6 +1083,8 @@ class Md2Po:
                     encoding=self.pofile.encoding,
                 )
             else:
+                # opening the file to save truncates it
+                str(self.pofile).encode(self.pofile.encoding)
                 self.pofile.save(fpath=po_filepath)
         if mo_filepath:
             self.pofile.save_as_mofile(mo_filepath)
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 507a440..5bba667 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -14,7 +14,11 @@ from mdpo.command import (
     normalize_mdpo_command_aliases,
     parse_mdpo_html_command,
 )
-from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
+from mdpo.io import (
+    save_file,
+    save_file_checking_file_changed,
+    to_file_content_if_is_file,
+)
 from mdpo.md import (
     inline_link_target,
     is_autolink,
@@ -548,8 +552,7 @@ class MdPo2HTML(HTMLParser):
                     encoding=html_encoding,
                 )
             else:
-                with open(save, 'w', encoding=html_encoding) as f:
-                    f.write(self.output)
+                save_file(save, self.output, encoding=html_encoding)
 
         self.reset()
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 796e8e7..46cb4fd 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -10,7 +10,11 @@ from mdpo.command import (
     parse_mdpo_html_command,
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
-from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
+from mdpo.io import (
+    save_file,
+    save_file_checking_file_changed,
+    to_file_content_if_is_file,
+)
 from mdpo.md import (
     attribute_text,
     escape_block_mark,
@@ -1119,8 +1123,7 @@ class Po2Md:
                     encoding=md_encoding,
                 )
             else:
-                with open(save, 'w', encoding=md_encoding) as f:
-                    f.write(self.output)
+                save_file(save, self.output, encoding=md_encoding)
         return self.output
 
 
-- 
2.43.0


From 7fbbfcbcdd236bfdd6d851f64e11ed4799fac46e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 76/96] fix: do not modify the metadata passed to md2po

---
 src/mdpo/md2po/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d218395..7930e55 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -244,7 +244,7 @@ class Md2Po:
             False if kwargs.get('_check_saved_files_changed') else None
         )
 
-        self.metadata = kwargs.get('metadata') or {}
+        self.metadata = dict(kwargs.get('metadata') or {})
         _include_xheader = kwargs.get('xheader', False)
 
         if _include_xheader:
-- 
2.43.0


From f5d49e2b84c411e7808ecdb85c1995058d650e6d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 77/96] fix: load each file of event functions as its own
 module

---
 src/mdpo/event.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index a0f2462..f32886b 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -175,9 +175,8 @@ def parse_events_kwarg(events_kwarg):
                         f" '{event_name}' not found",
                     )
 
-                modname = os.path.splitext(
-                    os.path.realpath(fpath),
-                )[0].replace(os.sep, '.')
+                # different files must not share a module
+                modname = os.path.realpath(fpath)
                 if modname in sys.modules:
                     mod = sys.modules[modname]
                 else:
-- 
2.43.0


From 6e2899b7c4abb874e34501b6b399db753f0ba2e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 78/96] fix: do not keep modules of event functions that fail
 to load

---
 src/mdpo/event.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index f32886b..c9830fd 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -185,7 +185,11 @@ def parse_events_kwarg(events_kwarg):
                     )
                     mod = importlib.util.module_from_spec(spec)
                     sys.modules[modname] = mod
-                    spec.loader.exec_module(mod)
+                    try:
+                        spec.loader.exec_module(mod)
+                    except BaseException:
+                        del sys.modules[modname]
+                        raise
 
                 func_owner = mod
                 if '.' in funcname:
-- 
2.43.0


From 36fff1e72aceb57528cc7de8d648d56c3aee63ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 79/96] fix: check messages of catalogs in the encoding given
 for them

---
 src/mdpo/md2po/__main__.py     | 12 +++++++++---
 src/mdpo/md2po2md/__init__.py  |  9 +++++++--
 src/mdpo/mdpo2html/__main__.py | 12 +++++++++---
 src/mdpo/po.py                 | 27 ++++++++++++++++++---------
 src/mdpo/po2md/__main__.py     | 12 +++++++++---
 5 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index dc4b002..220d7dd 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -249,7 +249,9 @@ def run(args=frozenset()):
 
         if opts.no_obsolete:
             locations = list(
-                check_obsolete_entries_in_filepaths((opts.po_filepath,))
+                check_obsolete_entries_in_filepaths(
+                    (opts.po_filepath,), encoding=opts.po_encoding,
+                )
                 if po_file_exists
                 else parse_obsoletes_from_content_lines(content_lines),
             )
@@ -268,7 +270,9 @@ def run(args=frozenset()):
 
         if opts.no_fuzzy:
             locations = list(
-                check_fuzzy_entries_in_filepaths((opts.po_filepath,))
+                check_fuzzy_entries_in_filepaths(
+                    (opts.po_filepath,), encoding=opts.po_encoding,
+                )
                 if po_file_exists
                 else parse_fuzzy_from_content_lines(content_lines),
             )
@@ -288,7 +292,9 @@ def run(args=frozenset()):
 
         if opts.no_empty_msgstr:
             locations = list(
-                check_empty_msgstrs_in_filepaths((opts.po_filepath,))
+                check_empty_msgstrs_in_filepaths(
+                    (opts.po_filepath,), encoding=opts.po_encoding,
+                )
                 if po_file_exists
                 else parse_empty_msgstr_from_content_lines(content_lines),
             )
diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 56925f4..39a9238 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -196,16 +196,21 @@ def markdown_to_pofile_to_markdown(
             if no_obsolete:
                 obsoletes.extend(check_obsolete_entries_in_filepaths(
                     [po_filepath],
+                    encoding=po_encoding,
                 ))
 
             if no_fuzzy:
                 fuzzies.extend(
-                    check_fuzzy_entries_in_filepaths([po_filepath]),
+                    check_fuzzy_entries_in_filepaths(
+                        [po_filepath], encoding=po_encoding,
+                    ),
                 )
 
             if no_empty_msgstr:
                 empties.extend(
-                    check_empty_msgstrs_in_filepaths([po_filepath]),
+                    check_empty_msgstrs_in_filepaths(
+                        [po_filepath], encoding=po_encoding,
+                    ),
                 )
 
     return (_saved_files_changed, obsoletes, fuzzies, empties)
diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index e989a25..04f7d54 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -125,7 +125,9 @@ def run(args=frozenset()):
         po_filepaths = [pofile.fpath for pofile in mdpo2html.pofiles]
 
         if opts.no_obsolete:
-            locations = list(check_obsolete_entries_in_filepaths(po_filepaths))
+            locations = list(check_obsolete_entries_in_filepaths(
+                po_filepaths, encoding=opts.po_encoding,
+            ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -141,7 +143,9 @@ def run(args=frozenset()):
                 exitcode = 3
 
         if opts.no_fuzzy:
-            locations = list(check_fuzzy_entries_in_filepaths(po_filepaths))
+            locations = list(check_fuzzy_entries_in_filepaths(
+                po_filepaths, encoding=opts.po_encoding,
+            ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -157,7 +161,9 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
-            locations = list(check_empty_msgstrs_in_filepaths(po_filepaths))
+            locations = list(check_empty_msgstrs_in_filepaths(
+                po_filepaths, encoding=opts.po_encoding,
+            ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 0fba9d7..287d527 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -183,18 +183,27 @@ def paths_or_globs_to_unique_pofiles(pofiles_globs, ignore, po_encoding=None):
     return pofiles
 
 
-def check_obsolete_entries_in_filepaths(filenames):
+def _read_content_lines(filename, encoding=None):
+    """Return the lines of a file, in UTF-8 if its encoding is known."""
+    with open(filename, 'rb') as f:
+        content = f.read()
+    if encoding:
+        content = content.decode(encoding).encode('utf-8')
+    return content.splitlines(keepends=True)
+
+
+def check_obsolete_entries_in_filepaths(filenames, encoding=None):
     """Warns about all obsolete entries found in a set of PO files.
 
     Args:
         filenames (list): Set of file names to check.
+        encoding (str): Encoding of the files, if it is known.
 
     Returns:
         list(str): error messages produced.
     """
     for filename in filenames:
-        with open(filename, 'rb') as f:
-            content_lines = f.readlines()
+        content_lines = _read_content_lines(filename, encoding)
 
         yield from parse_obsoletes_from_content_lines(
             content_lines,
@@ -202,18 +211,18 @@ def check_obsolete_entries_in_filepaths(filenames):
         )
 
 
-def check_fuzzy_entries_in_filepaths(filenames):
+def check_fuzzy_entries_in_filepaths(filenames, encoding=None):
     """Warns about all fuzzy entries found in a set of PO files.
 
     Args:
         filenames (list): Set of file names to check.
+        encoding (str): Encoding of the files, if it is known.
 
     Returns:
         list(str): error messages produced.
     """
     for filename in filenames:
-        with open(filename, 'rb') as f:
-            content_lines = f.readlines()
+        content_lines = _read_content_lines(filename, encoding)
 
         yield from parse_fuzzy_from_content_lines(
             content_lines,
@@ -221,18 +230,18 @@ def check_fuzzy_entries_in_filepaths(filenames):
         )
 
 
-def check_empty_msgstrs_in_filepaths(filenames):
+def check_empty_msgstrs_in_filepaths(filenames, encoding=None):
     """Warns about all empty msgstr found in a set of PO files.
 
     Args:
         filenames (list): Set of file names to check.
+        encoding (str): Encoding of the files, if it is known.
 
     Returns:
         list(str): error messages produced.
     """
     for filename in filenames:
-        with open(filename, 'rb') as f:
-            content_lines = f.readlines()
+        content_lines = _read_content_lines(filename, encoding)
 
         yield from parse_empty_msgstr_from_content_lines(
             content_lines,
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index a43c427..98bb501 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -149,7 +149,9 @@ def run(args=frozenset()):
         po_filepaths = [pofile.fpath for pofile in po2md.pofiles]
 
         if opts.no_obsolete:
-            locations = list(check_obsolete_entries_in_filepaths(po_filepaths))
+            locations = list(check_obsolete_entries_in_filepaths(
+                po_filepaths, encoding=opts.po_encoding,
+            ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -165,7 +167,9 @@ def run(args=frozenset()):
                 exitcode = 3
 
         if opts.no_fuzzy:
-            locations = list(check_fuzzy_entries_in_filepaths(po_filepaths))
+            locations = list(check_fuzzy_entries_in_filepaths(
+                po_filepaths, encoding=opts.po_encoding,
+            ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
@@ -181,7 +185,9 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
-            locations = list(check_empty_msgstrs_in_filepaths(po_filepaths))
+            locations = list(check_empty_msgstrs_in_filepaths(
+                po_filepaths, encoding=opts.po_encoding,
+            ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
                     sys.stderr.write(
-- 
2.43.0


From afa81ffa8a6635a6a5d8f6556252493ba1b7ef65 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 80/96] fix: only ASCII whitespace and digits are those of
 Markdown syntax

---
 src/mdpo/md.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 5608667..7ac639a 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -12,7 +12,7 @@ LINK_REFERENCE_DEFINITION_RE = re.compile(
     r'(?:(?:[ \t]+|[ \t]*\n[ \t>]*)'
     r'(?:"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\.)*)\''
     r'|\(((?:[^()\\\n]|\\.)*)\)))?[ \t]*$',
-    re.MULTILINE,
+    re.MULTILINE | re.ASCII,
 )
 
 
@@ -44,6 +44,7 @@ def is_autolink(text, href):
     return text == href and re.match(
         r'[A-Za-z][A-Za-z0-9+.-]{1,31}:[^\s<>]*$',
         href,
+        re.ASCII,
     ) is not None
 
 
@@ -196,11 +197,12 @@ BLOCK_MARK_RE = re.compile(
     r'|(?:=+|-+)\s*$|(?:(?:\*\s*){3,}|(?:_\s*){3,}|(?:-\s*){3,})$'
     # delimiter row of a table
     r'|(?=.*-)(?=.*[|:])[-|:\s]+$',
+    re.ASCII,
 )
 HTML_BLOCK_RE = re.compile(
     r'<(?:[!?]|(?:script|pre|style|textarea)(?:[\s>]|$)'
     rf'|/?(?:{HTML_BLOCK_TAGS})(?:\s|/?>|$))',
-    re.IGNORECASE,
+    re.IGNORECASE | re.ASCII,
 )
 
 # lines that are other block only if they are the first line of a paragraph
@@ -288,7 +290,7 @@ def escape_closing_hashes(text):
     Returns:
         str: Text with its trailing number signs escaped, if any.
     """
-    return re.sub(r'(^|\s)(#+\s*)$', r'\1\\\2', text)
+    return re.sub(r'(^|\s)(#+\s*)$', r'\1\\\2', text, flags=re.ASCII)
 
 
 def escape_table_cell(text):
-- 
2.43.0


From 99f20f0f21ba117ddc431e192d7cce7aa401ead5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 81/96] fix: write the control characters of titles as they are

---
 src/mdpo/md.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 7ac639a..0530a32 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -58,8 +58,6 @@ def inline_link_target(href, title=''):
     Returns:
         str: Target ready to be placed between parenthesis.
     """
-    import polib
-
     parens = 0
     for ch in href:
         parens += (ch == '(') - (ch == ')')
@@ -71,7 +69,8 @@ def inline_link_target(href, title=''):
         return href
     for space in '\n\r\t':
         title = title.replace(space, ' ')
-    return f'{href} "{polib.escape(title)}"'
+    title = title.replace('\\', '\\\\').replace('"', '\\"')
+    return f'{href} "{title}"'
 
 
 def link_reference_definition(target, href, title=''):
-- 
2.43.0


From b23be876052a6b45a02cf1de89dad11808e5441b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 82/96] fix: lines are not wrapped inside words nor
 destinations of links

---
 src/mdpo/md.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 0530a32..fe6d337 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -1,6 +1,7 @@
 """Markdown related utilities for mdpo."""
 
 import re
+import unicodedata
 
 import md4c
 import md_ulb_pwrap
@@ -218,6 +219,12 @@ UNBREAKABLE_SPAN_RE = re.compile(
     r'\]\(<(?:[^<>\\]|\\.)*>|\[\[[^\[\]]*\]\]|<!--.*?-->',
 )
 
+# spans that can only be broken at their spaces
+UNSPLITTABLE_SPAN_RE = re.compile(
+    r'(?<!`)(`+)(?!`).*?(?<!`)\1(?!`)|<[^<>]*>|(?:!|\])\[[^\[\]]*\]'
+    r'|\]\((?:[^()\\]|\\.|\([^()]*\))*\)',
+)
+
 
 def wrap_paragraph(text, width, first_line_width):
     """Wrap the text of a paragraph without changing its meaning.
@@ -234,6 +241,7 @@ def wrap_paragraph(text, width, first_line_width):
         str: Wrapped text.
     """
     spans = [m.span() for m in UNBREAKABLE_SPAN_RE.finditer(text)]
+    words = [m.span() for m in UNSPLITTABLE_SPAN_RE.finditer(text)]
     lines, end = ([], 0)  # lines as their start and end positions
     for line in md_ulb_pwrap.ulb_wrap_paragraph(
         text, width, first_line_width,
@@ -241,15 +249,33 @@ def wrap_paragraph(text, width, first_line_width):
         start = text.find(line, end)
         end = start + len(line)
         lines.append((start, end))
-        while len(lines) > 1 and not _can_break(text, *lines[-2:], spans):
+        while len(lines) > 1 and not _can_break(
+            text, *lines[-2:], spans, words,
+        ):
             lines[-2:] = [(lines[-2][0], end)]
     return '\n'.join(text[start:end] for start, end in lines)
 
 
-def _can_break(text, previous_line, next_line, unbreakable_spans):
+def _is_scriptio_continua(char):
+    return (
+        unicodedata.east_asian_width(char) in 'WF'
+        and unicodedata.category(char)[0] in 'LNP'
+        and not unicodedata.name(char, '').startswith('HANGUL')
+    )
+
+
+def _can_break(
+    text, previous_line, next_line, unbreakable_spans, unsplittable_spans,
+):
     start, end = previous_line
     next_start, next_end = next_line
-    if end == next_start and text[end - 1:end + 1].isascii():
+    separator = text[end:next_start]
+    if separator.strip(' \t\n'):
+        return False
+    if not separator and (
+        not any(_is_scriptio_continua(ch) for ch in text[end - 1:end + 1])
+        or any(begin < end < stop for begin, stop in unsplittable_spans)
+    ):
         # only scriptio continua can be broken between characters
         return False
     if any(begin < next_start < stop for begin, stop in unbreakable_spans):
-- 
2.43.0


From 9515104ff7cba206093126ce47dcb276f3c821a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:56 +0000
Subject: [PATCH 83/96] fix: keep the autolinks inside the text of links

---
 src/mdpo/md2po/__init__.py | 35 ++++++++++++++++++++++++-----------
 src/mdpo/po2md/__init__.py | 37 +++++++++++++++++++++++++------------
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 7930e55..e7c4d12 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -131,6 +131,7 @@ class Md2Po:
         '_inside_codeblock',
         '_inside_pblock',
         '_inside_aspan',
+        '_outer_aspans',
         '_inside_liblock',
         '_inside_codespan',
         '_inside_olblock',
@@ -386,6 +387,7 @@ class Md2Po:
         self._codespan_text = ''
 
         self._inside_aspan = False
+        self._outer_aspans = []
         self._current_aspan_text = ''
         # indicates the target of the current link, which is referenced and
         # extracted without using MD4C, so we can preserve it as referenced
@@ -762,6 +764,11 @@ class Md2Po:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
+            if self._inside_aspan:  # autolink inside link text
+                self._outer_aspans.append(
+                    (self._current_aspan_text, self._current_aspan_ref_target),
+                )
+                self._current_aspan_text = ''
             self._inside_aspan = True
 
             current_aspan_href = attribute_text(details['href'])
@@ -842,29 +849,35 @@ class Md2Po:
                     )
 
         if span is md4c.SpanType.A:
-            if self._current_aspan_ref_target:  # referenced link
-                self.current_msgid += f'[{self._current_aspan_text}]'
+            if self._outer_aspans:  # autolink inside link text
+                link = f'<{self._current_aspan_text}>'
+            elif self._current_aspan_ref_target:  # referenced link
+                link = f'[{self._current_aspan_text}]'
                 if self._current_aspan_ref_target != self._current_aspan_text:
-                    self.current_msgid += (
-                        f'[{self._current_aspan_ref_target}]'
-                    )
+                    link += f'[{self._current_aspan_ref_target}]'
                 self._current_aspan_ref_target = None
             else:
                 title = attribute_text(details['title'])
                 href = attribute_text(details['href'])
                 if is_autolink(self._current_aspan_text, href):
                     # autolink vs link clash (see implementation notes)
-                    self.current_msgid += f'<{href}'
+                    link = f'<{href}'
                     if title:
-                        self.current_msgid += f' "{polib.escape(title)}"'
-                    self.current_msgid += '>'
+                        link += f' "{polib.escape(title)}"'
+                    link += '>'
                 else:
-                    self.current_msgid += (
+                    link = (
                         f'[{self._current_aspan_text}]'
                         f'({inline_link_target(href, title)})'
                     )
-            self._inside_aspan = False
-            self._current_aspan_text = ''
+            if self._outer_aspans:
+                text, target = self._outer_aspans.pop()
+                self._current_aspan_text = text + link
+                self._current_aspan_ref_target = target
+            else:
+                self.current_msgid += link
+                self._inside_aspan = False
+                self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
             start, end = codespan_delimiters(
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 46cb4fd..9236d3b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -124,6 +124,7 @@ class Po2Md:
         '_inside_liblock',
         '_inside_hblock',
         '_inside_aspan',
+        '_outer_aspans',
         '_inside_codespan',
         '_inside_latexmath_display',
         '_inside_uspan',
@@ -327,6 +328,7 @@ class Po2Md:
         self._containers = []
 
         self._inside_aspan = False
+        self._outer_aspans = []
         self._current_aspan_ref_target = None
         self._current_aspan_href = None
         self._current_aspan_text = ''
@@ -834,6 +836,11 @@ class Po2Md:
                 self.current_msgid += self._enterspan_replacer[span.value]
 
         if span is md4c.SpanType.A:
+            if self._inside_aspan:  # autolink inside link text
+                self._outer_aspans.append(
+                    (self._current_aspan_text, self._current_aspan_ref_target),
+                )
+                self._current_aspan_text = ''
             self._inside_aspan = True
 
             if self.link_references is None:
@@ -919,32 +926,38 @@ class Po2Md:
                 self.current_msgid += self._leavespan_replacer[span.value]
 
         if span is md4c.SpanType.A:
-            if self._current_aspan_ref_target:  # referenced link
-                self.current_msgid += f'[{self._current_aspan_text}]'
+            if self._outer_aspans:  # autolink inside link text
+                link = f'<{self._current_aspan_text}>'
+            elif self._current_aspan_ref_target:  # referenced link
+                link = f'[{self._current_aspan_text}]'
                 if self._current_aspan_ref_target != self._current_aspan_text:
-                    self.current_msgid += (
-                        f'[{self._current_aspan_ref_target}]'
-                    )
+                    link += f'[{self._current_aspan_ref_target}]'
                 self._current_aspan_ref_target = None
             else:
                 title = attribute_text(details['title'])
-                href = self._current_aspan_href
+                href = attribute_text(details['href'])
                 if is_autolink(self._current_aspan_text, href):
                     # autolink vs link clash (see implementation notes)
-                    self.current_msgid += f'<{href}'
+                    link = f'<{href}'
                     if title:
-                        self.current_msgid += f' "{polib.escape(title)}"'
-                    self.current_msgid += '>'
+                        link += f' "{polib.escape(title)}"'
+                    link += '>'
                 else:
                     if title:
                         self._aimg_title_inside_current_msgid = True
-                    self.current_msgid += (
+                    link = (
                         f'[{self._current_aspan_text}]'
                         f'({inline_link_target(href, title)})'
                     )
             self._current_aspan_href = None
-            self._inside_aspan = False
-            self._current_aspan_text = ''
+            if self._outer_aspans:
+                text, target = self._outer_aspans.pop()
+                self._current_aspan_text = text + link
+                self._current_aspan_ref_target = target
+            else:
+                self.current_msgid += link
+                self._inside_aspan = False
+                self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
             start, end = codespan_delimiters(
-- 
2.43.0


From da18eb07628971da99233edd5fa3584fe5f2955d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 84/96] fix: escape the destinations of links

---
 src/mdpo/md.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index fe6d337..8f2c50a 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -64,8 +64,13 @@ def inline_link_target(href, title=''):
         parens += (ch == '(') - (ch == ')')
         if parens < 0:
             break
-    if ' ' in href or parens or (title and not href):
+    # backslashes that would escape the next character
+    href = re.sub(r'\\(?=[!-/:-@\[-`{-~]|$)', r'\\\\', href)
+    if re.search(r'[\x00-\x20\x7f]', href) or parens or (title and not href):
+        href = re.sub('[<>]', r'\\\g<0>', href)
         href = f'<{href}>'
+    elif href.startswith('<'):
+        href = f'\\{href}'
     if not title:
         return href
     for space in '\n\r\t':
-- 
2.43.0


From 10021f2eb68f4bc2805ab0076e7d6374942f1b57 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:32 +0000
Subject: [PATCH 85/96] fix: find untranslated entries that blank lines do not
 follow

---
 src/mdpo/po.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 287d527..575cb9e 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -1,10 +1,16 @@
 """PO files related stuff."""
 
+import re
+
 import polib
 
 from mdpo.io import filter_paths, glob_paths
 from mdpo.polib import poentry__cmp__
 
+EMPTY_MSGSTR_RE = re.compile(rb'(?:#~ )?msgstr(?:\[\d+\])? ""')
+CONTINUATION_LINE_RE = re.compile(rb'(?:#~ )?"')
+EMPTY_CONTINUATION_LINE_RE = re.compile(rb'(?:#~ )?""\s*$')
+
 
 def po_escaped_string(chars):
     r"""Prepend a ``\`` character to a string.
@@ -303,11 +309,16 @@ def parse_empty_msgstr_from_content_lines(
     Returns:
         list(str): error locations found.
     """
-    n_lines = len(content_lines)
     for i, line in enumerate(content_lines):
-        if (
-            line.startswith(b'msgstr ""') or line.startswith(b'#~ msgstr ""')
-        ) and not content_lines[i - 1].startswith(b'msgid ""'):
-            next_i = i + 1
-            if next_i == n_lines or not content_lines[next_i].strip():
-                yield f'{location_prefix}{next_i}'
+        if EMPTY_MSGSTR_RE.match(line) and not (
+            content_lines[i - 1].startswith(b'msgid ""')
+        ):
+            # the text can continue in the next lines
+            for next_line in content_lines[i + 1:]:
+                if not CONTINUATION_LINE_RE.match(next_line):
+                    yield f'{location_prefix}{i + 1}'
+                    break
+                if not EMPTY_CONTINUATION_LINE_RE.match(next_line):
+                    break
+            else:
+                yield f'{location_prefix}{i + 1}'
-- 
2.43.0


From b6565d32b5fc48786d6524e0848b21b5417054a6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 86/96] fix: tell in check mode that the MO file has changed

---
 src/mdpo/io.py             | 16 ++++++++++++++++
 src/mdpo/md2po/__init__.py |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index df9e5d5..daee3fd 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -165,6 +165,22 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
     return changed
 
 
+def file_has_content(filepath, content):
+    """Check if a file exists and has a binary content.
+
+    Args:
+        filepath (str): Path to the file.
+        content (bytes): Content to compare with that of the file.
+
+    Returns:
+        bool: If the file has the content.
+    """
+    if not os.path.isfile(filepath):
+        return False
+    with open(filepath, 'rb') as f:
+        return f.read() == content
+
+
 def flatten(xss):
     """Flatten a iterable of iterables."""
     return (x for xs in xss for x in xs)
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index e7c4d12..bd1ec6b 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -12,6 +12,7 @@ from mdpo.command import (
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import (
+    file_has_content,
     filter_paths,
     flatten,
     glob_paths,
@@ -1100,6 +1101,11 @@ class Md2Po:
                 str(self.pofile).encode(self.pofile.encoding)
                 self.pofile.save(fpath=po_filepath)
         if mo_filepath:
+            if self._saved_files_changed is False:
+                self._saved_files_changed = not file_has_content(
+                    mo_filepath,
+                    self.pofile.to_binary(),
+                )
             self.pofile.save_as_mofile(mo_filepath)
         return self.pofile
 
-- 
2.43.0


From 91e5cee278406dbf768e0ed629d797c7a44e934d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 87/96] fix: keep the first number of ordered lists

---
 src/mdpo/po2md/__init__.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 9236d3b..4ceddcc 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -324,7 +324,8 @@ class Po2Md:
         self._codespan_text = ''
         self._codespan_inside_current_msgid = False
 
-        # list items ('ul' or 'ol') and quotes ('quote') being written
+        # list items and quotes being written: 'ul', 'quote' or the
+        # indentation of the items of an ordered list
         self._containers = []
 
         self._inside_aspan = False
@@ -347,7 +348,8 @@ class Po2Md:
         # current UL marks by nesting levels
         self._ul_marks = []
 
-        # [numerical iterm order, current delimitier] for OL blocks
+        # [number of the next item, current delimiter, increment between
+        # items] for OL blocks
         self._ol_marks = []
 
         # current lists type (list nesting): ['ul' or 'ol', [True, False]]
@@ -496,7 +498,7 @@ class Po2Md:
                         if self._current_list_type[-1][-1][-1] is True:
                             first_line_width_diff = -6
                     else:
-                        first_line_width_diff = -3
+                        first_line_width_diff = -len(self._containers[-1])
 
             if self._inside_hblock:
                 translation = escape_closing_hashes(translation)
@@ -539,7 +541,7 @@ class Po2Md:
         spaces are part of the content, as in code blocks.
         """
         prefix = ''.join(
-            '> ' if container == 'quote' else '   '
+            {'quote': '> ', 'ul': '   '}.get(container, container)
             for container in self._containers
         )
         if content and self._containers and self._containers[-1] == 'ul':
@@ -662,16 +664,20 @@ class Po2Md:
             list_type = self._current_list_type[-1][0]
             if list_type == 'ol':
                 # inside OL
-                self._ol_marks[-1][0] += 1
-                self.current_line += f'1{self._ol_marks[-1][1]} '
+                number, delimiter, step = self._ol_marks[-1]
+                mark = f'{number}{delimiter} '
+                self.current_line += mark
+                self._ol_marks[-1][0] += step
+                container = ' ' * len(mark)
             else:
                 # inside UL
                 self.current_line += f'{self._ul_marks[-1]} '
+                container = 'ul'
             if details['is_task']:
                 mark = details['task_mark']
                 self.current_line += f'[{mark}] '
             self._current_list_type[-1][-1].append(details['is_task'])
-            self._containers.append(list_type)
+            self._containers.append(container)
             self._inside_liblock = True
         elif block is md4c.BlockType.UL:
             self._separate_nested_list()
@@ -680,7 +686,11 @@ class Po2Md:
         elif block is md4c.BlockType.OL:
             self._separate_nested_list()
             self._current_list_type.append(['ol', []])
-            self._ol_marks.append([0, details['mark_delimiter']])
+            start = details['start']
+            # all the items of the lists that start by one are numbered so
+            self._ol_marks.append([
+                start, details['mark_delimiter'], int(start != 1),
+            ])
         elif block is md4c.BlockType.HR:
             if self.current_msgid:
                 self._close_line()
-- 
2.43.0


From 30a4f477a4d87eb9a2919e400a67bbc3b1e85b2f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 88/96] fix: do not join indented code blocks to the previous
 block

---
 src/mdpo/po2md/__init__.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 4ceddcc..d54bcce 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -131,6 +131,7 @@ class Po2Md:
         '_codespan_text',
         '_codespan_inside_current_msgid',
         '_containers',
+        '_takes_indented_code',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -328,6 +329,10 @@ class Po2Md:
         # indentation of the items of an ordered list
         self._containers = []
 
+        # an indented code block would be part of the last block written,
+        # which is a list or other indented code block
+        self._takes_indented_code = False
+
         self._inside_aspan = False
         self._outer_aspans = []
         self._current_aspan_ref_target = None
@@ -616,6 +621,7 @@ class Po2Md:
         if self._inside_liblock and self.current_msgid:
             # text of a tight list item before the HTML block
             self._close_line()
+        self._takes_indented_code = False
         for line in content.split('\n'):
             self._open_line(content=True)
             self.current_line += line
@@ -632,6 +638,10 @@ class Po2Md:
         ):
             return
 
+        takes_indented_code = self._takes_indented_code
+        if block is not md4c.BlockType.HTML:
+            self._takes_indented_code = False
+
         if block is md4c.BlockType.P:
             self._inside_pblock = True
             if self._containers and not self.current_line:
@@ -648,6 +658,12 @@ class Po2Md:
                 self.current_line += attribute_text(details['info'])
                 self._codeblock_fence_index = len(self.outputlines)
                 self._save_current_line()
+            elif takes_indented_code:
+                # indented would be part of the previous block
+                self._open_line()
+                self.current_line += '```'
+                self._codeblock_fence_index = len(self.outputlines)
+                self._save_current_line()
             else:
                 self._inside_indented_codeblock = True
                 if self._inside_liblock and not self.current_line:
@@ -747,12 +763,13 @@ class Po2Md:
             self._inside_codeblock = False
 
             if not self._inside_indented_codeblock:
-                fence = self._codeblock_fence(details['fence_char'])
+                fence = self._codeblock_fence(details['fence_char'] or '`')
                 self._open_line(content=self._codeblock_starts_item)
                 self.current_line += fence
                 self._save_current_line()
             if not self._inside_liblock:
                 self._save_blank_line()
+            self._takes_indented_code = self._inside_indented_codeblock
             self._inside_indented_codeblock = False
         elif block is md4c.BlockType.H:
             self._save_current_msgid()
@@ -773,10 +790,12 @@ class Po2Md:
             self._ul_marks.pop()
             self._current_list_type.pop()
             self._end_list()
+            self._takes_indented_code = True
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
             self._end_list()
+            self._takes_indented_code = True
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
             self._save_current_msgid()
             self.current_line += ' '
-- 
2.43.0


From cd6e73e33e1c854e74fedae1ed01e449b0b4dc35 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 89/96] fix: keep quotes without content

---
 src/mdpo/po2md/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d54bcce..5ed4a3c 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -132,6 +132,7 @@ class Po2Md:
         '_codespan_inside_current_msgid',
         '_containers',
         '_takes_indented_code',
+        '_quote_starts',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -333,6 +334,9 @@ class Po2Md:
         # which is a list or other indented code block
         self._takes_indented_code = False
 
+        # index of the first line of each quote being written
+        self._quote_starts = []
+
         self._inside_aspan = False
         self._outer_aspans = []
         self._current_aspan_ref_target = None
@@ -732,6 +736,7 @@ class Po2Md:
             else:
                 self._separate_nested_block()
             self._containers.append('quote')
+            self._quote_starts.append(len(self.outputlines))
             self._inside_liblock = False
         elif block is md4c.BlockType.TABLE:
             if not self.current_line or self.current_msgid:
@@ -818,7 +823,12 @@ class Po2Md:
             self.current_line += f'{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1:] == [self._line_prefix().rstrip(' ')]:
+            line = self._line_prefix().rstrip(' ')
+            start = self._quote_starts.pop()
+            if len(self.outputlines) == start and not self.current_line:
+                # quote without content
+                self.outputlines.append(line)
+            elif self.outputlines[-1:] == [line]:
                 self.outputlines.pop()
             self._containers.pop()
             self._inside_liblock = self._containers[-1:] not in (
-- 
2.43.0


From a1047a170d1a4578e531bcdbeb82920e676d019e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 90/96] fix: keep the end of HTML comments of several lines

---
 src/mdpo/po2md/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 5ed4a3c..976bafb 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1095,7 +1095,11 @@ class Po2Md:
                 self.current_msgid += text
             else:
                 self.current_msgid += text
-        elif self._process_command(text):
+        elif self._process_command(text) and not (
+            # the line ends a comment of several lines
+            self._inside_htmlblock[1].rfind('<!--')
+            > self._inside_htmlblock[1].rfind('-->')
+        ):
             self._inside_htmlblock[2] = True
         else:
             # the line of a mdpo command is removed
-- 
2.43.0


From 32d834526765533c2571e4477dac1bf6cdb930b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:04 +0000
Subject: [PATCH 91/96] fix: apply the commands inside items to what follows
 them

---
 src/mdpo/po2md/__init__.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 976bafb..0ffc1f0 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -116,6 +116,7 @@ class Po2Md:
         '_leavespan_replacer',
 
         '_inside_htmlblock',
+        '_block_before_html',
         '_inside_codeblock',
         '_inside_indented_codeblock',
         '_codeblock_starts_item',
@@ -314,6 +315,8 @@ class Po2Md:
             '',  # content of the HTML block, without mdpo commands
             False,  # the last text of the HTML block was a mdpo command
         ]
+        # the output ends with other block of the item before a HTML block
+        self._block_before_html = False
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
         self._codeblock_starts_item = False
@@ -621,10 +624,13 @@ class Po2Md:
         )
         self.current_line = ''
 
+    def _separate_block_before_html(self):
+        if self._block_before_html:
+            self._save_blank_line()
+            self._block_before_html = False
+
     def _save_html_content(self, content):
-        if self._inside_liblock and self.current_msgid:
-            # text of a tight list item before the HTML block
-            self._close_line()
+        self._separate_block_before_html()
         self._takes_indented_code = False
         for line in content.split('\n'):
             self._open_line(content=True)
@@ -645,6 +651,7 @@ class Po2Md:
         takes_indented_code = self._takes_indented_code
         if block is not md4c.BlockType.HTML:
             self._takes_indented_code = False
+            self._block_before_html = False
 
         if block is md4c.BlockType.P:
             self._inside_pblock = True
@@ -742,6 +749,14 @@ class Po2Md:
             if not self.current_line or self.current_msgid:
                 self._separate_nested_block()
         elif block is md4c.BlockType.HTML:
+            if self._inside_liblock:
+                if self.current_msgid:
+                    # text of a tight list item before the HTML block
+                    self._close_line()
+                self._block_before_html = bool(
+                    not self.current_line
+                    and self.outputlines[-1].strip(' >'),
+                )
             self._inside_htmlblock = [True, '', False]
 
     def leave_block(self, block, details):
@@ -784,6 +799,7 @@ class Po2Md:
                 self.outputlines.append(self.outputlines[-1])
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
+            self._block_before_html = False
             self._save_current_msgid()
             if self.current_line:
                 self._save_current_line()
@@ -857,6 +873,8 @@ class Po2Md:
         ):
             return
 
+        self._separate_block_before_html()
+
         if self._current_imgspan:
             # the alternative text of an image does not have markup
             self._current_imgspan['spans_inside'] += 1
@@ -1065,6 +1083,7 @@ class Po2Md:
             return
 
         if not self._inside_htmlblock[0]:
+            self._separate_block_before_html()
             if not self._inside_codeblock:
                 if text == '\n':  # softbreaks
                     text = ' '
-- 
2.43.0


From d0f1f6f9f01e9d934982b551fb966311b156c0b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 92/96] fix: apply in mdpo2html the commands inside items

---
 src/mdpo/mdpo2html/__init__.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5bba667..184a721 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -479,15 +479,32 @@ class MdPo2HTML(HTMLParser):
                 data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
 
+    def _is_command_inside_item(self, command):
+        """Check if a comment is a command in the text of a list item."""
+        if not (command or '').startswith('mdpo-'):
+            return False
+        open_tags = []
+        for handle, tag, _attrs in self.replacer:
+            if handle == 'start' and tag != 'input':
+                open_tags.append(tag)
+            elif handle == 'end' and open_tags:
+                open_tags.pop()
+        return self.lists_depth and open_tags in ([], ['li'])
+
     def handle_comment(self, data):
+        data_as_comment = f'<!--{data}-->'
+        command, comment = parse_mdpo_html_command(
+            data_as_comment,
+        )
+        if self.replacer and self._is_command_inside_item(
+            self.command_aliases.get(command, command),
+        ):
+            # the command affects to what follows it
+            self._process_replacer()
 
         if self.replacer:
             self.replacer.append(('comment', data, None))
         else:
-            data_as_comment = f'<!--{data}-->'
-            command, comment = parse_mdpo_html_command(
-                data_as_comment,
-            )
             if command is None:
                 self.output += data_as_comment
             else:
@@ -513,6 +530,12 @@ class MdPo2HTML(HTMLParser):
                     self.enable_next_block = True
                 elif command == 'mdpo-context' and comment:
                     self.current_msgctxt = comment
+                elif command == 'mdpo-include' and comment:
+                    # the included message consumes the pending commands
+                    self.disable_next_block = False
+                    self.enable_next_block = False
+                    self.current_msgctxt = None
+                    self.output = previous_output + data_as_comment
                 elif command == 'mdpo-include-codeblock':
                     warnings.warn(
                         'Code blocks translations are not supported'
-- 
2.43.0


From 3607726ae3569fccda5c8376a6a82be061cd04b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:06 +0000
Subject: [PATCH 93/96] fix: do not escape the text of formulas

---
 src/mdpo/md2po/__init__.py | 4 +++-
 src/mdpo/po2md/__init__.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index bd1ec6b..1c91e12 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -945,7 +945,9 @@ class Md2Po:
                     if self._inside_codespan:
                         self._codespan_text += text
                         return
-                    if text == self.italic_start_string:
+                    if block is md4c.TextType.LATEXMATH:
+                        pass  # the formulas do not have markup
+                    elif text == self.italic_start_string:
                         text = self.italic_start_string_escaped
                     elif text == self.code_start_string:
                         text = self.code_start_string_escaped
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0ffc1f0..37120e9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1093,7 +1093,9 @@ class Po2Md:
                 if self._inside_codespan:
                     self._codespan_text += text
                     return
-                if text == self.italic_start_string:
+                if block is md4c.TextType.LATEXMATH:
+                    pass  # the formulas do not have markup
+                elif text == self.italic_start_string:
                     text = self.italic_start_string_escaped
                 elif text == self.code_start_string:
                     text = self.code_start_string_escaped
-- 
2.43.0


From 6925b3f7f59f151c95db16b6087508f01ed6ed1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:45 +0000
Subject: [PATCH 94/96] fix: keep apart the words of the lines of display
 formulas

---
 src/mdpo/md2po/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 1c91e12..54875f7 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -923,7 +923,9 @@ class Md2Po:
                 self.current_msgid += img_markup
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
-            self.current_msgid += self._inside_latexmath_display_text
+            self.current_msgid += (
+                self._inside_latexmath_display_text.strip()
+            )
             self._inside_latexmath_display_text = ''
             self._save_current_msgid()
 
@@ -961,7 +963,7 @@ class Md2Po:
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
                 if self._inside_latexmath_display:
-                    self._inside_latexmath_display_text += text.strip()
+                    self._inside_latexmath_display_text += text
                     return
                 self.current_msgid += text
             elif not self.disable_next_codeblock and (
-- 
2.43.0


From e196f7624b13b7f3dbe51a36e635bcb36b24f551 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:25 +0000
Subject: [PATCH 95/96] fix: find the link definitions of contents with other
 line ends

---
 src/mdpo/md.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 8f2c50a..b44e2ea 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -103,6 +103,7 @@ def parse_link_references(content):
         list: Tuples with 3 values, target, href and title for each link
         reference.
     """
+    content = re.sub('\r\n?', '\n', content)
     matches = list(re.finditer(LINK_REFERENCE_DEFINITION_RE, content))
     if not matches:
         return []
-- 
2.43.0


From 40bc8ae37ce3990cefb4d4fed51acf7deac34910 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:55 +0000
Subject: [PATCH 96/96] fix: translate in mdpo2html the lines of contents with
 other line ends

---
 src/mdpo/mdpo2html/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 184a721..e009dcd 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -476,7 +476,7 @@ class MdPo2HTML(HTMLParser):
             elif self.cdata_elem:
                 self.replacer.append(('cdata', data, None))
             else:
-                data = data.replace('\n', ' ')
+                data = re.sub('\r\n?|\n', ' ', data)
                 self.replacer.append(('data', data, None))
 
     def _is_command_inside_item(self, command):
-- 
2.43.0

