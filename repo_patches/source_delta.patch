From f59b4851b5acd45abc2d27e14f42a2b39036dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:38 +0000
Subject: [PATCH 01/27] fix: index lowercase words as a whole for
 case-insensitive lookup

A word that is already lowercase was passed as a plain string where a list
of strings is expected, so each of its letters was indexed separately.
With the only entry "abc", the word "B" was considered correct.
---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 02c690d..6d23e11 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -82,7 +82,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
 
         # And cache word's casing and its lowerase form
         captype = aff.casing.guess(word)
-        lower = aff.casing.lower(word) if captype != CapType.NO else word
+        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
 
         alt_spellings = []
 
-- 
2.43.0


From deb533d029c2ace767e8c511a36265b6fcd06292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:41 +0000
Subject: [PATCH 02/27] fix: don't fail on words without lowercase form with
 CHECKSHARPS

Lowercasing gives no variants for the empty string and for words starting
with a capital dotted I. The German rules took the first variant anyway and
raised IndexError both from lookup and from suggest.
---
 spylls/hunspell/algo/capitalization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index cd69706..5421b22 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -8,6 +8,7 @@
 .. autoclass:: GermanCasing
 """
 
+import itertools
 from enum import Enum
 from typing import Tuple, List, Iterator
 
@@ -200,12 +201,12 @@ class GermanCasing(Casing):
             replaced = text[:pos] + 'ß' + text[pos+2:]
             return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
 
-        lowered = super().lower(word)[0]
+        result = super().lower(word)
 
         if 'SS' in word:
-            return [*sharp_s_variants(lowered), lowered]
+            return [*itertools.chain.from_iterable(sharp_s_variants(lowered) for lowered in result), *result]
 
-        return [lowered]
+        return result
 
     def guess(self, word):
         result = super().guess(word)
-- 
2.43.0


From 42982643317a0157bf80dbe3a3bc8059a8c34770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:44 +0000
Subject: [PATCH 03/27] fix: don't fail when a suggestion with a space is
 longer than the word

For a mixed-case misspelling the letter after the space in the suggestion
is compared with the letter of the misspelling at that place. The place
might be outside of the misspelling, which raised IndexError.
---
 spylls/hunspell/algo/suggest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index bc081e9..edaa7d3 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -220,7 +220,8 @@ class Suggest:
                 # "aNew" will suggest "a new", here we fix it back to "a New"
                 if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                     pos = text.find(' ')
-                    if text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
+                    # (the suggestion might be longer than the misspelling)
+                    if text[pos+1:pos+2] != word[pos:pos+1] and text[pos+1:pos+2].upper() == word[pos:pos+1]:
                         text = text[:pos+1] + word[pos] + text[pos+2:]
 
             # If the word is forbidden, nothing more to do
-- 
2.43.0


From 922a8a60f1bdcd2a178a15f5c35226d6fb376f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:47 +0000
Subject: [PATCH 04/27] fix: take text of affixes literally

The text added by an affix was used as a regular expression. A suffix like
"(s)" never matched, and "++" failed on loading of the dictionary.
---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8f7e450..c665127 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -234,7 +234,7 @@ class Prefix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
-        self.replace_regexp = re.compile('^' + self.add)
+        self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
         return (
@@ -253,7 +253,7 @@ class Suffix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
-        self.replace_regexp = re.compile(self.add + '$')
+        self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
         return (
-- 
2.43.0


From 87fcaff103409660950db056a02044ae43504742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:50 +0000
Subject: [PATCH 05/27] fix: take REP patterns literally except for the anchors

REP patterns (and ph: fields of the words) were used as regular
expressions, so "REP . ," replaced every character and "REP ( [" failed on
loading. Only ^ and $ have a special meaning there.
---
 spylls/hunspell/data/aff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index c665127..f6b06cd 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -154,7 +154,8 @@ class RepPattern:
     replacement: str
 
     def __post_init__(self):
-        self.regexp = re.compile(self.pattern)
+        # only ^ and $ are treated as in regexps, everything else is literal
+        self.regexp = re.compile(re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$'))
 
 
 @dataclass
-- 
2.43.0


From 0f6e8e40633afcd2c11feb89de03a44e01904d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:53 +0000
Subject: [PATCH 06/27] fix: take ICONV and OCONV patterns literally

The patterns were used as regular expressions, so "ICONV . a" replaced
every character. Only the leading and trailing underscores are special.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index f6b06cd..14a1b1b 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -426,7 +426,7 @@ class ConvTable:
     def __post_init__(self):
         def compile_row(pat1, pat2):
             pat1clean = pat1.replace('_', '')
-            pat1re = pat1clean
+            pat1re = re.escape(pat1clean)
             if pat1.startswith('_'):
                 pat1re = '^' + pat1re
             if pat1.endswith('_'):
-- 
2.43.0


From 8a489c490aa217a57141525c52d5ac75ca7374c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:56 +0000
Subject: [PATCH 07/27] fix: don't repeat suggestions for hyphenated words

Suggestions made by correcting one part of a hyphenated word were not
remembered, so the same text could be suggested again by ngrams.
---
 spylls/hunspell/algo/suggest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index edaa7d3..b523e93 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -336,6 +336,7 @@ class Suggest:
                         # and "Afro-American" is present in the dictionary as a whole word, it is better
                         # to delegate search for the right breaking to the Lookup.
                         if self.lookup(candidate):
+                            handled.add(candidate)
                             yield Suggestion(candidate, 'dashes')
                     # after only one misspelled chunk, we stop the search anyways, whether we found some
                     # sugestions or not
-- 
2.43.0


From a4b665022771b0fd254b7ad27396648176593345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:59 +0000
Subject: [PATCH 08/27] fix: don't exceed the limit of edit suggestions by one

The number of suggestions was compared with the limit after one more was
already returned, so MAXCPDSUGS 3 gave up to four compound suggestions and
MAXCPDSUGS 0 gave one.
---
 spylls/hunspell/algo/suggest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index b523e93..b3a56ca 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -389,6 +389,9 @@ class Suggest:
                     if is_good_suggestion(suggestion.text):
                         yield suggestion
 
+        if limit <= 0:
+            return
+
         count = 0
 
         for suggestion in filter_suggestions(self.edits(word)):
@@ -400,7 +403,7 @@ class Suggest:
                 yield res
                 count += 1
 
-                if count > limit:
+                if count >= limit:
                     return
 
     def edits(self, word: str) -> Iterator[Union[Suggestion, MultiWordSuggestion]]:
-- 
2.43.0


From 23541405be310186bde5c56ab240fcae4899d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:02 +0000
Subject: [PATCH 09/27] fix: don't exceed COMPOUNDWORDMAX by one

Splitting the rest of the word gives at least two more parts, so compounds
of COMPOUNDWORDMAX + 1 words were accepted.
---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9f86dd9..9370387 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -778,7 +778,7 @@ class Lookup:
 
         # Check compounding limitation (if the rest of the word is less than 2 allowed parts, or if
         # the further compounding would produce more parts than allowed)
-        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX):
+        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 2 > aff.COMPOUNDWORDMAX):
             return
 
         compoundpos = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN
@@ -860,7 +860,7 @@ class Lookup:
                     yield CompoundForm([AffixForm(word_rest, word_rest)])
 
         if len(word_rest) < aff.COMPOUNDMIN * 2 or \
-                (aff.COMPOUNDWORDMAX and len(prev_parts) >= aff.COMPOUNDWORDMAX):
+                (aff.COMPOUNDWORDMAX and len(prev_parts) + 2 > aff.COMPOUNDWORDMAX):
             return
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
-- 
2.43.0


From bfd99e86f614b9fed020a548dd4b1210e8e6a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:28 +0000
Subject: [PATCH 10/27] fix: require three letters for CHECKCOMPOUNDTRIPLE

With COMPOUNDMIN 1 a one-letter part followed by the same letter was taken
for a triple: "a" + "ab" was refused, though there are two letters only.
---
 spylls/hunspell/algo/lookup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9370387..a7c0bbc 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -921,7 +921,8 @@ class Lookup:
             if aff.CHECKCOMPOUNDTRIPLE:
                 # CHECKCOMPOUNDTRIPLE setting tells, that if there is triplificatioin of some letter
                 # on the bound of two parts (like "foobb" + "bar"), it is not correct compound word
-                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
+                if any(len(bound) == 3 and len(set(bound)) == 1
+                       for bound in [left[-2:] + right[:1], left[-1:] + right[:2]]):
                     return True
 
             if aff.CHECKCOMPOUNDCASE:
-- 
2.43.0


From 93f2a70d78b9ce1add9b3c7afbe5c86da86e7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:39 +0000
Subject: [PATCH 11/27] fix: skip byte order mark when the file is read as
 UTF-8

The mark was recognized only in the Windows-1252 reading, which is used for
the beginning of the aff file. In a UTF-8 dic file it became a part of the
first word, or made the words count be read as a word.
---
 spylls/hunspell/readers/file_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index 95fb10c..9c22113 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -46,6 +46,8 @@ class BaseReader:
             self.line_no += 1
             if self.line_no == 1 and ln.startswith("\xef\xbb\xbf"):
                 ln = ln.replace("\xef\xbb\xbf", '')
+            if self.line_no == 1 and ln.startswith("\ufeff"):
+                ln = ln[1:]
             yield (self.line_no, ln.strip())
             ln = self.io.readline()
 
-- 
2.43.0


From 48b9d600a09c68521bdbc7e995a8de9709fc3093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:42 +0000
Subject: [PATCH 12/27] fix: read affix tables without rows

For "SFX A Y 0" the flag was taken for the number of rows, which failed on
loading, or with a numeric flag swallowed the following lines.
---
 spylls/hunspell/readers/aff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 4248bfa..e09125d 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -110,7 +110,8 @@ def read_aff(source: BaseReader) -> Tuple[aff.Aff, Context]:
 
         # SFX/PFX are the only directives that have multiple entries in .aff file
         if directive in ['SFX', 'PFX']:
-            data[directive][value[0].flag] = value
+            if value:
+                data[directive][value[0].flag] = value
         else:
             data[directive] = value
 
@@ -198,7 +199,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
     value = values[0] if values else None
 
     def _read_array(count=None):
-        if not count:
+        if count is None:
             count = int(value)
 
         # TODO: handle if fetching it we'll find something NOT starting with teh expected directive name
-- 
2.43.0


From de73580ec42b51416320229e59d5cfd8f1bbb12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:45 +0000
Subject: [PATCH 13/27] fix: cut only the extension of the found system
 dictionary

Any ".aff" in the path was removed, so dictionaries in a directory like
"/opt/my.affixes" were found but could not be opened.
---
 spylls/hunspell/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index 6e656f7..b440c0b 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -177,7 +177,7 @@ class Dictionary:
         for folder in cls.PATHES:
             pathes = glob.glob(f'{folder}/{name}.aff')
             if pathes:
-                return cls.from_files(pathes[0].replace('.aff', ''))
+                return cls.from_files(pathes[0][:-len('.aff')])
 
         raise LookupError(f'{name}.aff not found (search pathes are {cls.PATHES!r})')
 
-- 
2.43.0


From e75b1eaeaf20f057586a9f776831c07ce5f89e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:49 +0000
Subject: [PATCH 14/27] fix: stop replacing inside of the text just inserted by
 MAP

The search was continued from the second character of the replacement, so
"MAP o(oo)" replaced its own result again and again until RecursionError.
---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index d6e1089..70f39d2 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -70,7 +70,7 @@ def mapchars(word: str, maptable: List[Set[str]]) -> Iterator[str]:
                             continue
                         replaced = word[:pos] + other + word[pos+len(option):]
                         yield replaced
-                        for variant in mapchars_internal(replaced, pos + 1):
+                        for variant in mapchars_internal(replaced, pos + len(other)):
                             yield variant
 
     yield from mapchars_internal(word)
-- 
2.43.0


From b1db5eec4e40436875c6b4ad847def54508f4eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:52 +0000
Subject: [PATCH 15/27] fix: swap and move characters by the documented
 distance

Characters are to be swapped or moved by up to four places, but three was
the maximum, and moving to the very end of the word was never tried.
---
 spylls/hunspell/algo/permutations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 70f39d2..47301f1 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -102,7 +102,7 @@ def longswapchar(word: str) -> Iterator[str]:
     """
 
     for first in range(len(word) - 2):
-        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word))):
+        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE + 1, len(word))):
             yield word[:first] + word[second] + word[first+1:second] + word[first] + word[second+1:]
 
 
@@ -170,11 +170,11 @@ def movechar(word: str) -> Iterator[str]:
         return
 
     for frompos, char in enumerate(word):
-        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
+        for topos in range(frompos + 3, min(len(word) + 1, frompos + MAX_CHAR_DISTANCE + 2)):
             yield word[:frompos] + word[frompos+1:topos] + char + word[topos:]
 
     for frompos in reversed(range(len(word))):
-        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)):
+        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE), frompos - 1)):
             yield word[:topos] + word[frompos] + word[topos:frompos] + word[frompos+1:]
 
 
-- 
2.43.0


From 378bc0db9a71163c2fb3de3905d81d7a8cd07128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:55 +0000
Subject: [PATCH 16/27] fix: break words at every occurrence of the pattern

The search consumed the characters around the pattern, so the occurrence
one character after the previous one was missed: "a-b-c" was not accepted
with "a-b" and "c" in the dictionary.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 14a1b1b..7f9a560 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -109,7 +109,7 @@ class BreakPattern:
         if pattern.startswith('^') or pattern.endswith('$'):
             self.regexp = re.compile(f"({pattern})")
         else:
-            self.regexp = re.compile(f".({pattern}).")
+            self.regexp = re.compile(f"(?<=.)({pattern})(?=.)")
 
 
 @dataclass
-- 
2.43.0


From f5b538607a81f2d0abcd82002f20de78f459a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:58 +0000
Subject: [PATCH 17/27] fix: take flags in COMPOUNDRULE literally

Flags which are special characters of regular expressions, like "." or
"+", matched other flags or failed on loading.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 7f9a560..858e7ca 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -317,7 +317,7 @@ class CompoundRule:
             # There are ) flags used in real-life sv_* dictionaries
             # Obviously it is quite ad-hoc (other chars that have special meaning in regexp might be
             # used eventually)
-            parts = [part.replace(')', '\\)') for part in re.findall(r'[^*?][*?]?', self.text)]
+            parts = [re.escape(part[0]) + part[1:] for part in re.findall(r'[^*?][*?]?', self.text)]
 
         self.re = re.compile(''.join(parts))
         self.partial_re = re.compile(
-- 
2.43.0


From 6ffdabf90be8166cad8bc72dd31862d57ab8e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:17 +0000
Subject: [PATCH 18/27] fix: don't take flags of directives for AF aliases

With numeric flags and AF aliases, a directive like "KEEPCASE 5" after the
AF table used the fifth alias instead of the flag 5, or failed on loading.
---
 spylls/hunspell/readers/aff.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index e09125d..35c9ee7 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -57,7 +57,8 @@ class Context:
         """
         Parse singular flag, considering attr:`flag_format`.
         """
-        return list(self.parse_flags(string))[0]
+        # Aliases from AF stand for flags of words and affixes, not for the flag in a directive
+        return list(self.split_flags(string))[0]
 
     def parse_flags(self, string: str) -> Iterable[str]:
         """
@@ -70,6 +71,13 @@ class Context:
         if self.flag_synonyms and string.isdigit():
             return self.flag_synonyms[string]
 
+        return self.split_flags(string)
+
+    def split_flags(self, string: str) -> Iterable[str]:
+        """
+        Split string into flags, considering attr:`flag_format`.
+        """
+
         # TODO: what if string format doesn't match expected (odd number of chars for long, etc.)?
         if self.flag_format == 'short':
             return string
-- 
2.43.0


From 1c29eaf2564fe6492e6d7666ec2aa71b60a66bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:20 +0000
Subject: [PATCH 19/27] fix: allow backslash in the text stripped by an affix

The stripped text is put back as a replacement in a regular expression,
where a backslash is special.
---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index a7c0bbc..266e68c 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -578,7 +578,7 @@ class Lookup:
             # stem is produced by removing the suffix, and, optionally, adding the part of the
             # stem (named ``strip``). For example, suffix might be declared as ``(strip=y, add=ier)``,
             # then to restore the original stem from word "prettier" we must remove "ier" and add back "y"
-            stem = suffix.replace_regexp.sub(suffix.strip, word)
+            stem = suffix.replace_regexp.sub(suffix.strip.replace('\\', '\\\\'), word)
             # Even with matching flags, the suffix's condition still might prohibit this form
             if not suffix.cond_regexp.search(stem):
                 continue
@@ -615,7 +615,7 @@ class Lookup:
         )
 
         for prefix in possible_prefixes:
-            stem = prefix.replace_regexp.sub(prefix.strip, word)
+            stem = prefix.replace_regexp.sub(prefix.strip.replace('\\', '\\\\'), word)
 
             if not prefix.cond_regexp.search(stem):
                 continue
-- 
2.43.0


From 591b2611b260a6c1ed44799b4ed3901854e57c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:42 +0000
Subject: [PATCH 20/27] fix: don't break the rest of the word after an
 incorrect part

All possible breakings were tried even if their first part is already known
to be wrong, so checking a row of thirty dashes practically never finished.
---
 spylls/hunspell/algo/lookup.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 266e68c..9d148d5 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -229,14 +229,14 @@ class Lookup:
         # ``try_break`` recursively produces all possible lists of word breaking by break patterns
         # (like dashes). "The whole word" is yielded as a first alternative, so if the whole word is
         # correct, the loop will return early.
-        for parts in self.break_word(word):
+        for parts in self.break_word(word, is_correct=is_correct):
             # If all parts in this variant of the breaking is correct, the whole word considered correct.
             if all(is_correct(part) for part in parts if part):
                 return True
 
         return False
 
-    def break_word(self, text, depth=0):
+    def break_word(self, text, depth=0, is_correct=None):
         """
         Recursively produce all possible lists of word breaking by break patterns
         (like dashes). For example, if we are checking the word "pre-processed-meat", we'll
@@ -245,6 +245,8 @@ class Lookup:
         ["pre", "processed", "meat"]), because the dictionary might contain word "pre-processed"
         as a separate entity, so ["pre-processed", "meat"] would be considered correct, and the
         other two would not, if there is no separate entry on "pre".
+
+        If ``is_correct`` is passed, lists starting with parts that are not correct are omitted.
         """
         if depth > 10:
             return
@@ -254,7 +256,9 @@ class Lookup:
             for m in pat.regexp.finditer(text):
                 start = text[:m.start(1)]
                 rest = text[m.end(1):]
-                for breaking in self.break_word(rest, depth=depth+1):
+                if start and is_correct and not is_correct(start):
+                    continue
+                for breaking in self.break_word(rest, depth=depth+1, is_correct=is_correct):
                     yield [start, *breaking]
 
     def good_forms(self, word: str, *,
-- 
2.43.0


From 2e675dda5901aed10a480c0c333332fb0fa625d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:19 +0000
Subject: [PATCH 21/27] fix: drop all the space between a dictionary entry and
 its data tags

---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 6d23e11..95fed19 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -51,7 +51,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
             tags_start = old_tags_start
 
         if tags_start:
-            word = line[:tags_start]
+            word = line[:tags_start].rstrip(' \t')
             # If tags were present, parse them
             data = parse_data(line[tags_start:], aff.AM)
         else:
-- 
2.43.0


From e3aab5b53e8a82ecbf8f435e1a9d83a3563691f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:03 +0000
Subject: [PATCH 22/27] fix: do not compare with the last letter when looking
 for a doubled pair of letters

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 47301f1..c835750 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -204,7 +204,7 @@ def doubletwochars(word: str) -> Iterator[str]:
 
     # TODO: 1) for vacacation yields "vacation" twice, hunspell's algo kinda wiser
     # 2) maybe just use regexp?..
-    for i in range(2, len(word)):
+    for i in range(3, len(word)):
         if word[i-2] == word[i] and word[i-3] == word[i-1]:
             yield word[:i-1] + word[i+1:]
 
-- 
2.43.0


From dc33f70daf153756220015a17d7bd062a9d31a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:15:53 +0000
Subject: [PATCH 23/27] fix: apply Turkic casing to az_AZ and crh_UA
 dictionaries

LANG with a country code was only recognised for Turkish.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 858e7ca..9b0f4ae 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -1146,7 +1146,7 @@ class Aff:
 
         if self.CHECKSHARPS:
             self.casing = GermanCasing()
-        elif self.LANG in ['tr', 'tr_TR', 'az', 'crh']:     # TODO: more robust language code check!
+        elif self.LANG in ['tr', 'tr_TR', 'az', 'az_AZ', 'crh', 'crh_UA']:  # TODO: more robust language code check!
             self.casing = TurkicCasing()
         else:
             self.casing = Casing()
-- 
2.43.0


From 6d6eface017f3aa54a4db50537f366f57933250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:29 +0000
Subject: [PATCH 24/27] fix: keep the second prefix of forms which also have a
 suffix

With COMPLEXPREFIXES a word may have two prefixes. When a suffix was found
too, the second prefix was dropped from the resulting form, so its flags were
not looked at.
---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9d148d5..c4c1dc5 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -537,7 +537,7 @@ class Lookup:
                 # AND suffix split out
                 if suffix_allowed and form.prefix and form.prefix.crossproduct:
                     yield from (
-                        form2.replace(text=form.text, prefix=form.prefix)
+                        form2.replace(text=form.text, prefix=form.prefix, prefix2=form.prefix2)
                         for form2 in self.desuffix(form.stem,
                                                    required_flags=suffix_flags,
                                                    forbidden_flags=forbidden_flags,
-- 
2.43.0


From d674289e877ab10843072a6f7a8e8660e4967200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:20:58 +0000
Subject: [PATCH 25/27] fix: keep the fields of a morphological alias in their
 order

Rows of the AM table were stored as sets, so the order of several fields
with the same tag (and of the ph: replacements they add to REP) was
different from one run of the interpreter to another.
---
 spylls/hunspell/data/aff.py    | 2 +-
 spylls/hunspell/readers/aff.py | 2 +-
 spylls/hunspell/readers/dic.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 9b0f4ae..fec948a 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -1110,7 +1110,7 @@ class Aff:
     #: Table of word data aliases. Logic of aliasing is the same as for :attr:`AM`.
     #:
     #: *Usage:* :meth:`read_dic <spylls.hunspell.readers.dic.read_dic>`
-    AM: Dict[str, Set[str]] = field(default_factory=dict)
+    AM: Dict[str, List[str]] = field(default_factory=dict)
 
     # **Other**
 
diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 35c9ee7..51ca016 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -271,7 +271,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         }
     if directive == 'AM':
         return {
-            str(i + 1): {*ln}
+            str(i + 1): ln
             for i, ln in enumerate(_read_array())
         }
     if directive == 'COMPOUNDSYLLABLE':
diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 95fed19..9e83071 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -1,7 +1,7 @@
 from collections import defaultdict
 import re
 
-from typing import List, Dict, Set, Optional
+from typing import List, Dict, Optional
 
 from spylls.hunspell.data import dic
 from spylls.hunspell.data.aff import Aff, RepPattern
@@ -124,7 +124,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
     return result
 
 
-def parse_data(text: str, aliases: Dict[str, Set[str]]) -> Dict[str, List[str]]:
+def parse_data(text: str, aliases: Dict[str, List[str]]) -> Dict[str, List[str]]:
     """
     Parse data tags after stem.
     There can be *anything* in this part of the data, but parsed and processed are:
-- 
2.43.0


From d649bc791ee082a3da60efb93361855f87c5643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:18 +0000
Subject: [PATCH 26/27] fix: tell flags of different lengths from each other in
 COMPOUNDRULE

Flags of several characters were put into a regular expression as they are and
matched one after another without a separator. Numeric flags 1 and 11 were mixed
up, and long flags with characters special in regular expressions didn't match.
---
 spylls/hunspell/data/aff.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index fec948a..935c050 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -311,13 +311,16 @@ class CompoundRule:
         # This works but is super ad-hoc!
         if '(' in self.text:
             self.flags = set(re.findall(r'\((.+?)\)', self.text))
-            parts = re.findall(r'\([^*?]+?\)[*?]?', self.text)
+            parts = re.findall(r'\(([^*?]+?)\)([*?]?)', self.text)
         else:
             self.flags = set(re.sub(r'[\*\?]', '', self.text))
             # There are ) flags used in real-life sv_* dictionaries
             # Obviously it is quite ad-hoc (other chars that have special meaning in regexp might be
             # used eventually)
-            parts = [re.escape(part[0]) + part[1:] for part in re.findall(r'[^*?][*?]?', self.text)]
+            parts = re.findall(r'([^*?])([*?]?)', self.text)
+
+        # Space after each flag allows to tell flags of different lengths ("1" and "11") from each other
+        parts = [f'(?:{re.escape(flag)}[ ]){times}' for flag, times in parts]
 
         self.re = re.compile(''.join(parts))
         self.partial_re = re.compile(
@@ -327,14 +330,14 @@ class CompoundRule:
     def fullmatch(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.re.fullmatch(''.join(fc))
+            self.re.fullmatch(''.join(f'{flag} ' for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
     def partial_match(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.partial_re.fullmatch(''.join(fc))
+            self.partial_re.fullmatch(''.join(f'{flag} ' for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
-- 
2.43.0


From e3a6c9d4c220ef89e86a008feb6bade28ceff946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:06 +0000
Subject: [PATCH 27/27] fix: respect FORBIDDENWORD and NOSUGGEST for parts of
 compounds by rules

Parts of words accepted by COMPOUNDRULE were taken from the dictionary whatever their flags.
Stems with a forbidden entry are no longer parts, and NOSUGGEST entries are not parts of suggested compounds.
---
 spylls/hunspell/algo/lookup.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index c4c1dc5..0c3116a 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -826,7 +826,7 @@ class Lookup:
                            word_rest: str,
                            prev_parts: List[data.dic.Word] = [],
                            rules: Optional[List[data.aff.CompoundRule]] = None,
-                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:  # pylint: disable=unused-argument
+                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:
         """
         Different way of producing compound words: by rules, looking like ``A*BC?CD``, where A, B, C, D
         are flags the word might have, and ``*?`` have the same meaning as in regular expressions.
@@ -852,12 +852,18 @@ class Lookup:
             # We start with all known rules
             rules = self.aff.COMPOUNDRULE
 
-        # FIXME: ignores flags like FORBIDDENWORD and nosuggest
+        # Forbidden words can't be parts of compounds (same as in affix_forms), and NOSUGGEST words
+        # can't be parts of suggested compounds
+        def possible_parts(text):
+            homonyms = self.dic.homonyms(text)
+            if aff.FORBIDDENWORD and any(aff.FORBIDDENWORD in homonym.flags for homonym in homonyms):
+                return []
+            return [homonym for homonym in homonyms if allow_nosuggest or aff.NOSUGGEST not in homonym.flags]
 
         # If it is middle of compounding process "the rest of the word is the whole last part" is always
         # possible
         if prev_parts:
-            for homonym in self.dic.homonyms(word_rest):
+            for homonym in possible_parts(word_rest):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 if any(r.fullmatch(flag_sets) for r in rules):
@@ -869,12 +875,13 @@ class Lookup:
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
             beg = word_rest[0:pos]
-            for homonym in self.dic.homonyms(beg):
+            for homonym in possible_parts(beg):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 compoundrules = [r for r in rules if r.partial_match(flag_sets)]
                 if compoundrules:
-                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts):
+                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
+                                                        allow_nosuggest=allow_nosuggest):
                         yield CompoundForm([AffixForm(beg, beg), *rest.parts])
 
     def is_bad_compound(self, compound: CompoundForm, captype: CapType) -> bool:
-- 
2.43.0

