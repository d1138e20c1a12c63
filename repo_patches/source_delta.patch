From e889c4f49030229a02571bf1995506a96545edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 01/31] fix: keep word ids of the 8th and later user
 dictionaries in range of the lattice node

---
 sudachipy/latticenode.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index f931fb8..8d2f5ca 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -3,7 +3,7 @@ cdef class LatticeNode:
     cdef int begin
     cdef int end
     cdef int total_cost
-    cdef int word_id
+    cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
     cdef bint is_connected_to_bos
-- 
2.43.0


From 3976ca53f757065b4aee9e31c5e0303ee68173a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 02/31] fix: read non-square connection matrices with the
 layout they are written in

---
 sudachipy/dictionarylib/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 4118bd9..1ffd0cc 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -42,7 +42,7 @@ class Grammar:
         self._matrix_view = \
             memoryview(bytes_)[connect_table_offset: connect_table_offset + 2 * left_id_size * right_id_size]
         if left_id_size * right_id_size != 0:
-            self._matrix_view = self._matrix_view.cast('h', shape=[left_id_size, right_id_size])
+            self._matrix_view = self._matrix_view.cast('h', shape=[right_id_size, left_id_size])
         bytes_.seek(original_offset)
 
     def get_storage_size(self):
-- 
2.43.0


From bdb9f90d06e41f0a375ac1aa4950304d4dc3edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 03/31] fix: write a full connection matrix when the source
 omits pairs, refuse ids outside of it

---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index bde5871..1c1c861 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -198,7 +198,7 @@ class DictionaryBuilder(object):
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-        matrix = JTypedByteBuffer()
+        matrix = JTypedByteBuffer(bytes(2 * lsize * rsize))
 
         for i, line in enumerate(matrix_input.readlines()):
             line = line.strip()
@@ -209,6 +209,8 @@ class DictionaryBuilder(object):
                 self.logger.warn('invalid format at line {}'.format(i))
                 continue
             l, r, cost = [int(col) for col in cols]
+            if not (0 <= l < lsize and 0 <= r < rsize):
+                raise ValueError('invalid connection id at line {}'.format(i))
             pos = matrix.tell()
             matrix.seek(2 * (l + lsize * r))
             matrix.write_int(cost, 'short')
-- 
2.43.0


From 579e10321502b348e2e0f36e472a1873257b86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 04/31] fix: read part-of-speech strings in the encoding they
 are written in

---
 sudachipy/dictionarylib/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 1ffd0cc..9297eb8 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -98,8 +98,10 @@ class Grammar:
     @staticmethod
     def bytes_get_string(bytes_):
         length = bytes_.read_byte()
+        if length >= 128:
+            length = ((length & 0x7F) << 8) | bytes_.read_byte()
         string = bytes_.read(2 * length)
-        return string.decode('utf-16')
+        return string.decode('utf-16-le')
 
     @staticmethod
     def bytes_get_short(bytes_):
-- 
2.43.0


From ef3a394c9a68062b110cfdd94eedfd7ad8995b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 05/31] fix: do not let the nodes of a failed call leak into
 the next one

---
 sudachipy/tokenizer.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sudachipy/tokenizer.pyx b/sudachipy/tokenizer.pyx
index 18e21fa..cd36aab 100644
--- a/sudachipy/tokenizer.pyx
+++ b/sudachipy/tokenizer.pyx
@@ -33,6 +33,7 @@ cdef void build_lattice_c(object tokenizer, object input_):
     bytes_ = input_.get_byte_text()
 
     cdef Lattice lattice = tokenizer._lattice
+    lattice.clear()  # the previous call may have failed before clearing it
     lattice.resize(len(bytes_))
 
     cdef unsigned int i, word_id, end, idx
-- 
2.43.0


From 97758f5328e239a4abcd45951855836579401400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 06/31] fix: let a used dictionary be closed

---
 sudachipy/dictionary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sudachipy/dictionary.py b/sudachipy/dictionary.py
index d54d7a9..8492752 100644
--- a/sudachipy/dictionary.py
+++ b/sudachipy/dictionary.py
@@ -94,6 +94,7 @@ class Dictionary:
     def close(self):
         self.grammar = None
         self.lexicon = None
+        LexiconSet.get_word_info.cache_clear()  # the cache keeps the lexicons alive
         for dict_ in self.dictionaries:
             dict_.close()
 
-- 
2.43.0


From b0609876454928704709981aa0f3cee72e05b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 07/31] fix: do not loop forever on numerals whose normalized
 form has a misplaced comma or point

---
 sudachipy/plugin/path_rewrite/join_numeric_plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index 060423c..861440f 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -59,10 +59,10 @@ class JoinNumericPlugin(PathRewritePlugin):
                 for c in s:
                     if not parser.append(c):
                         if begin_index >= 0:
-                            if parser.error_state == NumericParser.Error.COMMA:
+                            if parser.error_state == NumericParser.Error.COMMA and comma_as_digit:
                                 comma_as_digit = False
                                 i = begin_index - 1
-                            elif parser.error_state == NumericParser.Error.POINT:
+                            elif parser.error_state == NumericParser.Error.POINT and period_as_digit:
                                 period_as_digit = False
                                 i = begin_index - 1
                             begin_index = -1
-- 
2.43.0


From e07ff3a53857b7f18ebcacfa550fb79e2a067a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 08/31] fix: decode unicode literals of every length

---
 sudachipy/dictionarylib/dictionarybuilder.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 1c1c861..1e53551 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -307,11 +307,7 @@ class DictionaryBuilder(object):
 
     def decode(self, str_):
         def replace(match):
-            uni_text = match.group()
-            uni_text = uni_text.replace('{', '').replace('}', '')
-            if len(uni_text) > 6:
-                uni_text = ('\\U000{}'.format(uni_text[2:]))
-            return uni_text.encode('ascii').decode('unicode-escape')
+            return chr(int(match.group(1).strip('{}'), 16))
         return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)
 
     def check_splitinfo_format(self, str_):
-- 
2.43.0


From 2d42cc9f5578dea06658695191d71944331cf019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 09/31] fix: make the order of out-of-vocabulary words
 independent of the hash seed

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 123b638..a12b92b 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -63,7 +63,7 @@ class MeCabOovPlugin(OovProviderPlugin):
         if length < 1:
             return []
         nodes = []
-        for type_ in input_text.get_char_category_types(offset):
+        for type_ in sorted(input_text.get_char_category_types(offset), key=lambda t: t.value):
             if type_ not in self.categories:
                 continue
             cinfo = self.categories[type_]
-- 
2.43.0


From 0da539e903d3de62a3eede2930fbc84c4af0e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 10/31] fix: keep the end of the offset table when the end of
 the text is removed

---
 sudachipy/utf8inputtextbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudachipy/utf8inputtextbuilder.py b/sudachipy/utf8inputtextbuilder.py
index c923fe8..d059e39 100644
--- a/sudachipy/utf8inputtextbuilder.py
+++ b/sudachipy/utf8inputtextbuilder.py
@@ -45,7 +45,8 @@ class UTF8InputTextBuilder:
         length = len(str_)
         if end - begin > length:
             del self.modified_to_original[begin + length:end]
-        self.modified_to_original[begin] = modified_begin
+        if length > 0 or begin + 1 < len(self.modified_to_original):
+            self.modified_to_original[begin] = modified_begin
         for i in range(1, length):
             if begin + i < end:
                 self.modified_to_original[begin + i] = modified_end
-- 
2.43.0


From eb2b3b377131549647dcc9bd2ffa8970147271c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 11/31] fix: stay aligned when the replacement symbol is not a
 single character

---
 sudachipy/plugin/input_text/prolongedsoundmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/input_text/prolongedsoundmark.py b/sudachipy/plugin/input_text/prolongedsoundmark.py
index 6bfb2aa..0a0bc47 100644
--- a/sudachipy/plugin/input_text/prolongedsoundmark.py
+++ b/sudachipy/plugin/input_text/prolongedsoundmark.py
@@ -44,7 +44,7 @@ class ProlongedSoundMarkInputTextPlugin(InputTextPlugin):
             elif is_psm and cp not in self._psm_set:
                 if i - m_start_idx > 1:
                     builder.replace(m_start_idx - offset, i - offset, self._replace_symbol)
-                    offset += i - m_start_idx - 1
+                    offset += i - m_start_idx - len(self._replace_symbol)
                 is_psm = False
         if is_psm and n - m_start_idx > 1:
             builder.replace(m_start_idx - offset, n - offset, self._replace_symbol)
-- 
2.43.0


From abf42ee2b50841f97d0015568bd8f4ee151a678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 12/31] fix: find words by headword in every dictionary of a
 set

---
 sudachipy/dictionarylib/lexiconset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 6cc3d99..1a8bac4 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -80,7 +80,7 @@ class LexiconSet(Lexicon):
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
             wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
-            if wid <= 0:
+            if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
 
-- 
2.43.0


From fd3995b382ee85e78f0b818ead26c9641ce85668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 13/31] fix: read word infos correctly when several threads use
 one dictionary

---
 sudachipy/dictionarylib/wordinfolist.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index 6a62ebb..b933860 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import struct
+import threading
 
 from .wordinfo import WordInfo
 
@@ -23,8 +24,13 @@ class WordInfoList(object):
         self.offset = offset
         self._word_size = word_size
         self.has_synonym_gid = has_synonym_gid
+        self._lock = threading.RLock()  # the position in the bytes is shared by all readers
 
     def get_word_info(self, word_id):
+        with self._lock:
+            return self._read_word_info(word_id)
+
+    def _read_word_info(self, word_id):
         orig_pos = self.bytes.tell()
         index = self.word_id_to_offset(word_id)
         self.bytes.seek(index)
-- 
2.43.0


From 453127e1d788f6db9f77c4b9a98b9452b8eddaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 14/31] fix: look up user defined parts of speech by the ids of
 their own dictionary

---
 sudachipy/dictionarylib/lexiconset.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 1a8bac4..8325aa8 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -79,10 +79,15 @@ class LexiconSet(Lexicon):
 
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
-            wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
+            dic_pos_id = pos_id
+            if dic_id > 0 and pos_id >= self.pos_offsets[1]:  # user defined part-of-speech
+                dic_pos_id = pos_id - self.pos_offsets[dic_id] + self.pos_offsets[1]
+                if dic_pos_id < self.pos_offsets[1]:
+                    continue
+            wid = self.lexicons[dic_id].get_word_id(headword, dic_pos_id, reading_form)
             if wid >= 0:
                 return self.build_word_id(dic_id, wid)
-        return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
+        return -1
 
     def build_word_id(self, dict_id, word_id):
         if word_id > 0x0FFFFFFF:
-- 
2.43.0


From b08ba92501216dab10e75093e307daa2bf00378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:02 +0000
Subject: [PATCH 15/31] fix: keep the offset table complete when text is
 appended at the end

---
 sudachipy/utf8inputtextbuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/utf8inputtextbuilder.py b/sudachipy/utf8inputtextbuilder.py
index d059e39..56f553d 100644
--- a/sudachipy/utf8inputtextbuilder.py
+++ b/sudachipy/utf8inputtextbuilder.py
@@ -45,7 +45,9 @@ class UTF8InputTextBuilder:
         length = len(str_)
         if end - begin > length:
             del self.modified_to_original[begin + length:end]
-        if length > 0 or begin + 1 < len(self.modified_to_original):
+        if begin == end and length > 0:  # a range behind the end of the text
+            self.modified_to_original.insert(begin, modified_begin)
+        elif length > 0 or begin + 1 < len(self.modified_to_original):
             self.modified_to_original[begin] = modified_begin
         for i in range(1, length):
             if begin + i < end:
-- 
2.43.0


From 7e99fb8bbacf817255a436bc6986cad929bcf1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:02 +0000
Subject: [PATCH 16/31] fix: accept a character definition without ranges

---
 sudachipy/dictionarylib/charactercategory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/charactercategory.py b/sudachipy/dictionarylib/charactercategory.py
index fdecef3..c98282b 100644
--- a/sudachipy/dictionarylib/charactercategory.py
+++ b/sudachipy/dictionarylib/charactercategory.py
@@ -93,6 +93,8 @@ class CharacterCategory(object):
                 left_chain.put(left)
                 right_chain.pop(0)
         self.range_list = []
+        if not new_range_list:
+            return
         _range = new_range_list[0]
         for irange in new_range_list[1:]:
             if irange.low == _range.high and irange.categories == _range.categories:
-- 
2.43.0


From 44520f320e7c0e657663a145b6d71e56d3db9972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 17/31] fix: refuse numerals with a comma or point at the wrong
 place before a unit or after a point

---
 sudachipy/plugin/path_rewrite/numericparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sudachipy/plugin/path_rewrite/numericparser.py b/sudachipy/plugin/path_rewrite/numericparser.py
index f48daf1..7275316 100644
--- a/sudachipy/plugin/path_rewrite/numericparser.py
+++ b/sudachipy/plugin/path_rewrite/numericparser.py
@@ -219,6 +219,12 @@ class NumericParser(object):
             return False
 
         num = self._char_to_num[char]
+        if num < 0 and self._has_hanging_point:
+            self._error_state = self.Error.POINT
+            return False
+        if num < 0 and self._has_comma and not self.check_comma():
+            self._error_state = self.Error.COMMA
+            return False
         if self.is_small_unit(num):
             self._tmp.shift_scale(-num)
             if not self._sub_total.add(self._tmp):
@@ -260,7 +266,7 @@ class NumericParser(object):
         return str(self._total)
 
     def check_comma(self) -> bool:
-        if self._is_first_digit:
+        if self._is_first_digit or self._tmp.point >= 0:
             return False
         if not self._has_comma:
             return self._digit_length <= 3 and not self._tmp.is_zero() and not self._tmp.is_all_zero
-- 
2.43.0


From ef9969e31ad9192f40c55b0a90b2c8d41f2c984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 18/31] fix: join numerals on both sides of a comma at the end
 of a run, and only numerals

---
 .../path_rewrite/join_numeric_plugin.py       | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index 861440f..644aa0d 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -44,11 +44,12 @@ class JoinNumericPlugin(PathRewritePlugin):
         parser = NumericParser()
         i = -1
 
-        while i < len(path) - 1:
+        while i < len(path):
             i += 1
-            node = path[i]
-            types = self.get_char_category_types(text, node)
-            s = node.get_word_info().normalized_form
+            # the turn behind the last node ends a numeral there
+            node = path[i] if i < len(path) else None
+            types = self.get_char_category_types(text, node) if node else ()
+            s = node.get_word_info().normalized_form if node else None
             if CategoryType.NUMERIC in types or CategoryType.KANJINUMERIC in types or \
                (period_as_digit and s == '.') or (comma_as_digit and s == ','):
 
@@ -70,29 +71,34 @@ class JoinNumericPlugin(PathRewritePlugin):
                 continue
 
             if begin_index >= 0:
+                length = len(path)
                 if parser.done():
                     self._concat(path, begin_index, i, lattice, parser)
-                    i = begin_index + 1
                 else:
                     ss = path[i - 1].get_word_info().normalized_form
                     if (parser.error_state == NumericParser.Error.COMMA and ss == ',') or \
                        (parser.error_state == NumericParser.Error.POINT and ss == '.'):
-                        self._concat(path, begin_index, i - 1, lattice, parser)
-                        i = begin_index + 2
+                        if self._is_numeral(path, begin_index, i - 1, parser):
+                            self._concat(path, begin_index, i - 1, lattice, parser)
+                    elif parser.error_state == NumericParser.Error.COMMA and comma_as_digit:
+                        comma_as_digit = False
+                        i = begin_index - 1
+                        begin_index = -1
+                        continue
+                i -= length - len(path)
             begin_index = -1
             if not comma_as_digit and s != ',':
                 comma_as_digit = True
             if not period_as_digit and s != '.':
                 period_as_digit = True
 
-        if begin_index >= 0:
-            if parser.done():
-                self._concat(path, begin_index, len(path), lattice, parser)
-            else:
-                ss = path[-1].get_word_info().normalized_form
-                if (parser.error_state == NumericParser.Error.COMMA and ss == ',') or \
-                   (parser.error_state == NumericParser.Error.POINT and ss == '.'):
-                    self._concat(path, begin_index, len(path) - 1, lattice, parser)
+    @staticmethod
+    def _is_numeral(path, begin, end, parser) -> bool:
+        parser.clear()
+        for node in path[begin:end]:
+            if not all(parser.append(c) for c in node.get_word_info().normalized_form):
+                return False
+        return parser.done()
 
     def _concat(self, path, begin, end, lattice, parser) -> None:
         if path[begin].get_word_info().pos_id != self._numeric_pos_id:
-- 
2.43.0


From cbe04876dbb56c56ba444f6e265c8face97cd206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 19/31] fix: refuse strings that are too long in the unit they
 are written in

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 1e53551..010f855 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -383,6 +383,8 @@ class DictionaryBuilder(object):
                 len_ += 2
             else:
                 len_ += 1
+        if len_ > self.__STRING_MAX_LENGTH:
+            raise ValueError('string is too long')
         self.write_stringlength(len_)
         self.byte_buffer.write_str(text)
 
-- 
2.43.0


From e3507f7c2a821bd1dacbebf52782c9934aa05578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 20/31] fix: never index entries with left connection id -1,
 however it is written

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 010f855..d1ed585 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -113,7 +113,7 @@ class DictionaryBuilder(object):
 
         entry = self.WordEntry()
         # head word for trie
-        if cols[1] != '-1':
+        if int(cols[1]) != -1:
             entry.headword = cols[0]
         # left-id, right-id, connect_cost
         entry.parameters = [int(cols[i]) for i in [1, 2, 3]]
-- 
2.43.0


From 3e76f5a8906860c5c6bbf1777a3f2661b155fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:00 +0000
Subject: [PATCH 21/31] fix: let unit references name words with escaped
 separators

---
 sudachipy/dictionarylib/dictionarybuilder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index d1ed585..1f4c4f9 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -105,7 +105,8 @@ class DictionaryBuilder(object):
     def parse_line(self, cols):
         if len(cols) < self.__MIN_REQUIRED_COLS_NUM:
             raise ValueError('invalid format')
-        cols = [self.decode(col) for col in cols]
+        # the references to units are decoded one field at a time
+        cols = [col if 15 <= i <= 17 else self.decode(col) for i, col in enumerate(cols)]
         if not self.__is_length_valid(cols):
             raise ValueError('string is too long')
         if not cols[0]:
@@ -349,7 +350,7 @@ class DictionaryBuilder(object):
         if len(cols) < 8:
             raise ValueError('too few columns')
         headword = self.decode(cols[0])
-        pos_id = self.get_posid([cols[i] for i in range(1, 7)])
+        pos_id = self.get_posid([self.decode(cols[i]) for i in range(1, 7)])
         if pos_id < 0:
             raise ValueError('invalid part of speech')
         reading = self.decode(cols[7])
-- 
2.43.0


From 1ee4b27fae6f7778a54a61b0463e31426a0550ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 22/31] fix: refuse word ids of units that run into the
 dictionary number

---
 sudachipy/dictionarylib/dictionarybuilder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 1f4c4f9..1e02e18 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -336,12 +336,12 @@ class DictionaryBuilder(object):
         return re.match(r'U?\d+$', text)
 
     def parse_id(self, text):
-        if text.startswith('U'):
-            id_ = int(text[1:])
-            if self.is_user_dictionary:
-                id_ |= (1 << 28)
-        else:
-            id_ = int(text)
+        is_user = text.startswith('U')
+        id_ = int(text[1:] if is_user else text)
+        if id_ >= (1 << 28):
+            raise ValueError('invalid word ID')
+        if is_user and self.is_user_dictionary:
+            id_ |= (1 << 28)
         self.check_wordid(id_)
         return id_
 
-- 
2.43.0


From a94e28bb9393dd2906e5dfbe36923d6c4dcae7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 23/31] fix: refuse commas in the parts of a part of speech

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 1e02e18..f5e34c2 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -120,7 +120,7 @@ class DictionaryBuilder(object):
         entry.parameters = [int(cols[i]) for i in [1, 2, 3]]
         # part of speech
         pos_id = self.get_posid(cols[5:11])
-        if pos_id < 0:
+        if pos_id < 0 or any(',' in col for col in cols[5:11]):
             raise ValueError('invalid part of speech')
 
         entry.aunit_split_string = cols[15]
-- 
2.43.0


From 690ef61ae6a93b91d827bfc0d57e524a79188d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 24/31] fix: refuse negative sizes of the connection matrix

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index f5e34c2..c544244 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -196,6 +196,8 @@ class DictionaryBuilder(object):
             raise ValueError('invalid format at line 0')
         lr = header.split()
         lsize, rsize = [int(x) for x in lr]
+        if lsize < 0 or rsize < 0:
+            raise ValueError('invalid format at line 0')
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-- 
2.43.0


From 0d74615ba23d889957f35bf2b624d1261c84455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 25/31] fix: refuse dictionary forms that denote no entry

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index c544244..0a9e89d 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -288,6 +288,8 @@ class DictionaryBuilder(object):
                 self.write_string('')
             else:
                 self.write_string(wi.normalized_form)
+            if wi.dictionary_form_word_id >= len(self.entries):
+                raise ValueError('invalid word ID')
             self.byte_buffer.write_int(wi.dictionary_form_word_id, 'int')
             if wi.reading_form == wi.surface:
                 self.write_string('')
-- 
2.43.0


From 8f83f7a8347c13eb7b19e77fcf59d8c289adbb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 26/31] fix: read the dictionary form without following it any
 further

---
 sudachipy/dictionarylib/wordinfolist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index b933860..bf5d7f0 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -54,8 +54,8 @@ class WordInfoList(object):
 
         dictionary_form = surface
         if dictionary_form_word_id >= 0 and dictionary_form_word_id != word_id:
-            wi = self.get_word_info(dictionary_form_word_id)
-            dictionary_form = wi.surface
+            self.bytes.seek(self.word_id_to_offset(dictionary_form_word_id))
+            dictionary_form = self.buffer_to_string()
 
         self.bytes.seek(orig_pos)
 
-- 
2.43.0


From ffe17942546da1f80337ca4d15497324b100fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:34 +0000
Subject: [PATCH 27/31] fix: refuse headwords with NUL, which the index cannot
 hold

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 0a9e89d..a4a23de 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -153,6 +153,8 @@ class DictionaryBuilder(object):
 
     def add_to_trie(self, headword, word_id):
         key = headword.encode('utf-8')
+        if b'\0' in key:
+            raise ValueError('headword contains NUL')
         if key not in self.trie_keys:
             self.trie_keys[key] = []
         self.trie_keys[key].append(word_id)
-- 
2.43.0


From 304f3da0734f3fda51019b55a8007a5ad54d5e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 28/31] fix: refuse out-of-vocabulary parts of speech that the
 dictionary does not have

---
 sudachipy/plugin/oov/mecab_oov_plugin.py  | 2 ++
 sudachipy/plugin/oov/simple_oov_plugin.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index a12b92b..1320561 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -141,4 +141,6 @@ class MeCabOovPlugin(OovProviderPlugin):
                 oov.cost = int(cols[3])
                 pos = cols[4:10]
                 oov.pos_id = grammar.get_part_of_speech_id(pos)
+                if oov.pos_id < 0:
+                    raise ValueError("part of speech is invalid at line {}".format(i))
                 self.oov_list[type_].append(oov)
diff --git a/sudachipy/plugin/oov/simple_oov_plugin.py b/sudachipy/plugin/oov/simple_oov_plugin.py
index 82c2218..908407e 100644
--- a/sudachipy/plugin/oov/simple_oov_plugin.py
+++ b/sudachipy/plugin/oov/simple_oov_plugin.py
@@ -28,6 +28,8 @@ class SimpleOovPlugin(OovProviderPlugin):
 
     def set_up(self, grammar):
         self.oov_pos_id = grammar.get_part_of_speech_id(self.__oov_pos_strings)
+        if self.oov_pos_id < 0:
+            raise ValueError("oovPOS is invalid")
 
     def provide_oov(self, input_text, offset, has_other_words):
         if not has_other_words:
-- 
2.43.0


From 64a53c14c7020d9e6e228555e592c4c1175423c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 29/31] fix: leave no incomplete dictionary behind when a build
 command fails

---
 sudachipy/command_line.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index 66f7fba..27d9ac3 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import argparse
+import contextlib
 import fileinput
 import logging
 import os
@@ -102,13 +103,26 @@ def _matrix_file_checker(args, print_usage):
         exit(1)
 
 
+@contextlib.contextmanager
+def _dictionary_file(path):
+    """ an output file that is not left behind incomplete when the build fails """
+    wf = open(path, 'wb')
+    try:
+        with wf:
+            yield wf
+    except BaseException:
+        if os.path.isfile(path):
+            os.remove(path)
+        raise
+
+
 def _command_user_build(args, print_usage):
     _system_dic_checker(args, print_usage)
     _input_files_checker(args, print_usage)
     header = DictionaryHeader(
         USER_DICT_VERSION_3, int(time.time()), args.description)
     dict_ = BinaryDictionary.from_system_dictionary(args.system_dic)
-    with open(args.out_file, 'wb') as wf:
+    with _dictionary_file(args.out_file) as wf:
         wf.write(header.to_bytes())
         builder = UserDictionaryBuilder(dict_.grammar, dict_.lexicon)
         builder.build(args.in_files, None, wf)
@@ -119,7 +133,7 @@ def _command_build(args, print_usage):
     _input_files_checker(args, print_usage)
     header = DictionaryHeader(
         SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
-    with open(args.out_file, 'wb') as wf, open(args.matrix_file, 'r') as rf:
+    with open(args.matrix_file, 'r') as rf, _dictionary_file(args.out_file) as wf:
         wf.write(header.to_bytes())
         builder = DictionaryBuilder()
         builder.build(args.in_files, rf, wf)
-- 
2.43.0


From 1a8d6565159007c45f594a6e358fbdf635b26200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:13 +0000
Subject: [PATCH 30/31] fix: keep path costs in 64 bits, which those of long
 texts leave 32 bits

---
 sudachipy/lattice.pxd     | 2 +-
 sudachipy/lattice.pyx     | 2 +-
 sudachipy/latticenode.pxd | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sudachipy/lattice.pxd b/sudachipy/lattice.pxd
index ec2ce35..713fd5d 100644
--- a/sudachipy/lattice.pxd
+++ b/sudachipy/lattice.pxd
@@ -1,7 +1,7 @@
 from .latticenode cimport LatticeNode
 
 cdef extern from "limits.h":
-    cdef int INT_MAX
+    cdef long long LLONG_MAX
 
 cdef class Lattice:
 
diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index fdb120e..b702846 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -87,7 +87,7 @@ cdef class Lattice:
 
     cdef void connect_node(self, LatticeNode r_node):
         begin = r_node.begin
-        r_node.total_cost = INT_MAX
+        r_node.total_cost = LLONG_MAX
 
         cdef LatticeNode l_node
         cdef int connect_cost
diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index 8d2f5ca..c82e69f 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -2,7 +2,7 @@ cdef class LatticeNode:
 
     cdef int begin
     cdef int end
-    cdef int total_cost
+    cdef long long total_cost
     cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
-- 
2.43.0


From 45987e1af0224cbe08e39f13e84e06ebf680fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:45 +0000
Subject: [PATCH 31/31] fix: refuse a character type that only names an
 attribute of the types

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 1320561..bcf38c0 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -106,8 +106,8 @@ class MeCabOovPlugin(OovProviderPlugin):
                 if len(cols) < 4:
                     raise ValueError("invalid format at line {}".format(i))
                 try:
-                    type_ = getattr(categorytype.CategoryType, cols[0])
-                except AttributeError:
+                    type_ = categorytype.CategoryType[cols[0]]
+                except KeyError:
                     raise ValueError("`{}` is invalid type at line {}".format(cols[0], i))
                 if type_ in self.categories:
                     raise ValueError("`{}` is already defined at line {}".format(cols[0], i))
@@ -129,8 +129,8 @@ class MeCabOovPlugin(OovProviderPlugin):
                 if len(cols) < 10:
                     raise ValueError("invalid format at line {}".format(i))
                 try:
-                    type_ = getattr(categorytype.CategoryType, cols[0])
-                except AttributeError:
+                    type_ = categorytype.CategoryType[cols[0]]
+                except KeyError:
                     raise ValueError("`{}` is invalid type at line {}".format(cols[0], i))
                 if type_ not in self.categories:
                     raise ValueError("`{}` is undefined at line {}".format(cols[0], i))
-- 
2.43.0

