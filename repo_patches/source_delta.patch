From 311f8bf14ae7ad67bd968a7d051673ed54080b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 01/20] fix: UTrie2 lookup of U+10FFFF returned the
 out-of-range error value

---
 UnicodeData/Utrie2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index 54846cc..fbd3a86 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -86,7 +86,7 @@ class UTrie2(object):
             offset = 0 if c >= 0xDC00 else self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)
             return self.indexRaw(offset, c)
 
-        if c >= 0x10FFFF:
+        if c > 0x10FFFF:
             return asciiOffset + self.BAD_UTF8_DATA_OFFSET
 
         return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)
-- 
2.43.0


From b752c810afcc68244e7dacbfa99f90a4063a16bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 02/20] fix: getUnicodeProperties accepted column ==
 propsVectorsColumns and read the next row

---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index fa061fe..508239b 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -20,7 +20,7 @@ def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
     return propsVectors[vecIndex + column]
 
 def getUnicodeProperties(c: int, column: int):
-    if column > propsVectorsColumns:
+    if column >= propsVectorsColumns:
         return 0
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From a8382d3296f9c843eb4de9a5e5f7a606607cdf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 03/20] fix: isIDIgnorable dropped the result for ISO control
 characters

---
 UnicodeData/CharProps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 508239b..7552f5b 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -152,8 +152,8 @@ def isIDPart(c: int) -> bool:
     return (gcMask(gc) & ( GC_ND_MASK | GC_NL_MASK | GC_L_MASK | GC_PC_MASK | GC_MC_MASK | GC_MN_MASK)) != 0 or isIDIgnorable(c)
 
 def isIDIgnorable(c: int) -> bool:
-    if c < 0x009F:
-        isISOControl(c) and not isThatASCIIControlSpace(c)
+    if c <= 0x009F:
+        return isISOControl(c) and not isThatASCIIControlSpace(c)
 
     gc = getGeneralCategory(c)
     return gc == GC_FORMAT_CHAR
-- 
2.43.0


From 10e561e4b0abe48d0bae33b610e572f266c18ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 04/20] fix: getNumericType returned the general category
 instead of the numeric type

---
 UnicodeData/CharProps.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 7552f5b..6c9e45f 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -3,6 +3,7 @@ import typing
 from .Utrie2 import UTrie2
 from .CharPropsData import *
 from .uprops_h import *
+from .uchar_h import U_NT_NONE, U_NT_DECIMAL, U_NT_DIGIT, U_NT_NUMERIC
 from .uscript_h import *
 # from .UCDTypeDictionaries import generalCategoryNames as generalCategories
 # from .UCDTypeDictionaries import scriptNames as scriptCodes
@@ -171,7 +172,18 @@ def digitValue(c: int) -> int:
     return value if value <= 9 else -1
 
 def numericTypeFromProps(props: int) -> int:
-    return props & 0x1F
+    ntv = numericTypeValueFromProps(props)
+
+    if ntv == UPROPS_NTV_NONE:
+        return U_NT_NONE
+
+    if ntv < UPROPS_NTV_DIGIT_START:
+        return U_NT_DECIMAL
+
+    if ntv < UPROPS_NTV_NUMERIC_START:
+        return U_NT_DIGIT
+
+    return U_NT_NUMERIC
 
 def getNumericType(c: int) -> int:
     props = propsTrie.get(c)
-- 
2.43.0


From e4587b81b201c274a6975be65db27c0d3839a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 05/20] fix: simpleTitleCase was not converted from code points
 like the other case mappings

---
 UnicodeData/CaseProperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 3def9bc..42a807d 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -21,7 +21,7 @@ class CaseProperties(UCDProperties):
 
         self.simpleUpperCase = self.getCodePointsProperty("suc")
         self.simpleLowerCase = self.getCodePointsProperty("slc")
-        self.simpleTitleCase = self.getCharProperty("stc")
+        self.simpleTitleCase = self.getCodePointsProperty("stc")
 
         self.upperCase = self.getCodePointsProperty("uc")
         self.lowerCase = self.getCodePointsProperty("lc")
-- 
2.43.0


From cdaf417c8c5c96de9c827d7cedd84cee35c10041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 06/20] fix: UnicodeSet.add stored the unpinned code point

---
 UnicodeData/UnicodeSet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e81737e..424747d 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -397,7 +397,8 @@ class UnicodeSet(object):
         :param cp: the code point to add.
         :return: self, to support chaining.
         """
-        i = self._findCodePoint(_pinCodePoint(cp))
+        cp = _pinCodePoint(cp)
+        i = self._findCodePoint(cp)
 
         if (i & 1) != 0:
             return self
-- 
2.43.0


From 8f6702d7aa063dbd1f9cb033192375c07f1397fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 07/20] fix: UnicodeSet.addRange ignored pinning and did not
 return self on its fast path

---
 UnicodeData/UnicodeSet.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 424747d..afe5d79 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -427,7 +427,13 @@ class UnicodeSet(object):
         :param end: the last code point in the range to add.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if end < start:
+            return self  # the range is empty
+
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+
+        if start < end:
             length = len(self.list)
             limit = end + 1
 
@@ -445,7 +451,7 @@ class UnicodeSet(object):
                             self.list.extend([limit, UNICODE_SET_HIGH])
                         else:
                             self.list.append(UNICODE_SET_HIGH)
-                    return
+                    return self
 
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
-- 
2.43.0


From e612edbe4f212370a8f4cf720737f53fe8fec4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 08/20] fix: UnicodeSet remove, retain and complement of a
 single code point did nothing

---
 UnicodeData/UnicodeSet.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index afe5d79..0879dd6 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -479,7 +479,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start <= end:
+            start = _pinCodePoint(start)
+            end = _pinCodePoint(end)
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
@@ -511,9 +513,13 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start <= end:
+            start = _pinCodePoint(start)
+            end = _pinCodePoint(end)
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
+        else:
+            self.clear()  # intersecting with an empty range
 
         return self
 
@@ -546,7 +552,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start <= end:
+            start = _pinCodePoint(start)
+            end = _pinCodePoint(end)
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
-- 
2.43.0


From b32b0d25a5d7b2fbfc3ab794aacb8def5d069efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 09/20] fix: UnicodeSet union left adjacent ranges unmerged

---
 UnicodeData/UnicodeSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 0879dd6..0d9ab7f 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -252,7 +252,7 @@ class UnicodeSet(object):
                     i += 1
                     polarity ^= 1
                 elif b < a: # take b
-                    if len(buffer) > 0 and b < buffer[-1]:
+                    if len(buffer) > 0 and b <= buffer[-1]:
                         b = max(other[j], buffer.pop())
                     else:
                         buffer.append(b)
@@ -263,7 +263,7 @@ class UnicodeSet(object):
                 else: # a == b: take a, drop b
                     if a == UNICODE_SET_HIGH:
                         break
-                    if len(buffer) > 0 and a < buffer[-1]:
+                    if len(buffer) > 0 and a <= buffer[-1]:
                         a = max(self.list[i], buffer.pop())
                     else:
                         buffer.append(a)
-- 
2.43.0


From 5ecab9d32df21740807fa42b801b0319842cb3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 10/20] fix: UnicodeSet constructor built a malformed list for
 empty ranges, out-of-range values and U+10FFFF

---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 0d9ab7f..6c62480 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -716,9 +716,11 @@ class UnicodeSet(object):
         elif type(arg) is UnicodeSet:
             self.list = arg.list.copy()
         elif type(arg) is int:
-            self.list = [arg, arg + 1, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.add(arg)
         elif type(arg) is range:
-            self.list = [arg.start, arg.stop, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.addRange(arg.start, arg.stop - 1)
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
-- 
2.43.0


From 23d63f00416b539cb51def015229b4bf715a7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 11/20] fix: UnicodeSet.contains reported values above U+10FFFF
 as members

---
 UnicodeData/UnicodeSet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 6c62480..d8c612b 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -610,6 +610,9 @@ class UnicodeSet(object):
         :return: True if the set contans the code point(s), False otherwise.
         """
         if type(arg) is int:
+            if arg >= UNICODE_SET_HIGH:
+                return False
+
             i = self._findCodePoint(arg)
             return (i & 1) != 0
         elif type(arg) is range:
-- 
2.43.0


From 38b509a2d5eb25da2eb1f0c7b905a36fb8f85b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 12/20] fix: UTrie2.enumerator disagreed with get for parts of
 the code space

---
 UnicodeData/Utrie2.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index fbd3a86..6586d5f 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -109,16 +109,13 @@ class UTrie2(object):
         # enumerate index-2 blocks
         c = start
         while c < limit and c < self.highStart:
-            tempLimit = min(c + self.CP_PER_INDEX_1_ENTRY, limit)
+            # limit of the index-2 block that contains c
+            tempLimit = min(((c >> self.SHIFT_1) + 1) << self.SHIFT_1, limit)
 
             if c <= 0xFFFF:
                 # We're in the BMP
                 if not isSurrogate(c):
-                    i2Block = (c >> self.SHIFT_2)
-
-                    # if tempLimit is above the BMP, limit it to the BMP
-                    if tempLimit > 0x10000:
-                        tempLimit = 0x10000
+                    i2Block = (c >> self.SHIFT_1) << self.SHIFT_1_2
                 elif isSurrogateLead(c):
                     # Enumerate values for lead surrogate code points, not code units:
                     # This special block has half the normal length.
@@ -127,7 +124,7 @@ class UTrie2(object):
                 else:
                     # Switch back to the normal part of the index-2 table.
                     # Enumerate the second half of the surrogates block.
-                    i2Block = 0xDC00 >> self.SHIFT_2
+                    i2Block = 0xD800 >> self.SHIFT_2
                     tempLimit = min(0xE000, limit)
             else:
                 # supplementary code point
@@ -147,27 +144,15 @@ class UTrie2(object):
                 if prevValue != initialValue:
                     if prev < c: yield range(prev, c), prevValue
 
-                    prevBlock = self.dataNullOffset
                     prev = c
                     prevValue = initialValue
 
-                c += self.CP_PER_INDEX_1_ENTRY
+                prevBlock = self.dataNullOffset
+                c = tempLimit
             else:
                 # enumerate data blocks for one index-2 block
-                if c <= 0xFFFF:
-                    # We're in the BMP
-                    i2Start = 0
-                    i2Limit = (tempLimit >> self.SHIFT_2) - i2Block
-
-                    # if we're in the high surrogate range, i2Limit will be negative,
-                    # so we want to just do the high surroaget block
-                    if i2Limit < 0: i2Limit = 0
-                else:
-                    i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
-                    i2Limit = (tempLimit >> self.SHIFT_2) & self.INDEX_2_MASK
-
-                    if (c >> self.SHIFT_1) != (tempLimit >> self.SHIFT_1):
-                        i2Limit = self.INDEX_2_BLOCK_LENGTH
+                i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
+                i2Limit = (tempLimit - 1 >> self.SHIFT_2) & self.INDEX_2_MASK
 
                 for i2 in range(i2Start, i2Limit + 1):
                     block = self.index[i2Block + i2] << self.INDEX_SHIFT
@@ -186,7 +171,7 @@ class UTrie2(object):
                             prev = c
                             prevValue = initialValue
 
-                        c += self.DATA_BLOCK_LENGTH
+                        c = (c & ~self.DATA_MASK) + self.DATA_BLOCK_LENGTH
                     else:
                         jStart = c & self.DATA_MASK
                         jLimit = min(self.DATA_BLOCK_LENGTH, jStart + tempLimit - c)
-- 
2.43.0


From cadf69568b0cfb610cf72e30da9afc5cf9fede6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 13/20] fix: CPTrie.enumerator skipped, repeated or looped
 forever on parts of the code space

---
 UnicodeData/CPTrie.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 646e0d3..cb43da8 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -244,13 +244,16 @@ class CPTrie(object):
         return self.data[dataIndex]
 
     def enumerator(self, start: int = 0, limit: int = 0x110000) -> typing.Iterator[tuple[range, typing.Any]]:
-        if start >= 0x110000 or start >= self.highStart:
+        if start >= 0x110000:
             return
 
         prevI3Block = -1
         prevBlock = -1
         prev = start
-        nullValue = self.data[self.dataNullOffset]
+        nullValueOffset = self.dataNullOffset
+        if nullValueOffset >= self.dataLength:  # there is no data null block
+            nullValueOffset = self.dataLength - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET
+        nullValue = self.data[nullValueOffset]
         prevValue = nullValue  # or 0?
 
         c = start
@@ -258,7 +261,7 @@ class CPTrie(object):
             if c <= 0xFFFF and (self.trieType == UCPTRIE_TYPE_FAST or c <= UCPTRIE_SMALL_MAX):
                 i3Block = 0
                 i3Start = c >> UCPTRIE_FAST_SHIFT
-                # i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
+                i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
                 dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
             else:
                 # use the multi-stage index
@@ -271,12 +274,15 @@ class CPTrie(object):
                     i1 += UCPTRIE_SMALL_INDEX_LENGTH
 
                 i3Block = self.index[self.index[i1] + ((c >> UCPTRIE_SHIFT_2) & UCPTRIE_INDEX_2_MASK)]
-                if i3Block == prevI3Block and (c - start) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
+                if i3Block == prevI3Block and (c - prev) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
                     # The index-3 block is the same as the previous one, and filled with value.
                     assert (c & (UCPTRIE_CP_PER_INDEX_2_ENTRY - 1)) == 0
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
                     continue
 
+                if prevI3Block < 0:
+                    prevBlock = -1  # data blocks are longer below the fast limit
+
                 prevI3Block = i3Block
                 if i3Block == self.index3NullOffset:
                     # This is the index-3 null block.
@@ -290,11 +296,11 @@ class CPTrie(object):
                     continue
 
                 i3Start = (c >> UCPTRIE_SHIFT_3) & UCPTRIE_INDEX_3_MASK
-                # i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
+                i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
                 dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
 
             # Enumerate data blocks for one index-3 block.
-            for i3 in range(i3Start, dataBlockLength):
+            for i3 in range(i3Start, i3BlockLength):
                 if c >= limit: break
                 if (i3Block & 0x8000) == 0:
                     block = self.index[i3Block + i3]
@@ -305,7 +311,7 @@ class CPTrie(object):
                     block = (self.index[group] << (2 + (2 * gi))) & 0x30000
                     block |= self.index[group + gi + 1]  # C++ code indexes by group++ in previous line
 
-                if block == prevBlock and (c - start) >= dataBlockLength:
+                if block == prevBlock and (c - prev) >= dataBlockLength:
                     # The block is the same as the previous one, and filled with value.
                     assert (c & (dataBlockLength - 1)) == 0
                     c += dataBlockLength
@@ -346,6 +352,10 @@ class CPTrie(object):
             highValue = self.data[di]
             if highValue != prevValue:
                 if prev < c: yield range(prev, c), prevValue
+                prev = c
+                prevValue = highValue
+
+            c = limit
 
         # deliver last range
         if prev < c: yield range(prev, c), prevValue
-- 
2.43.0


From 55bb1e65377f608b344dff61026ebc15f65b0807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 14/20] fix: CPTrie.indexLength was the first index entry
 instead of the length of the index

---
 UnicodeData/CPTrie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index cb43da8..ec20714 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -151,7 +151,7 @@ class CPTrie(object):
     def __init__(self, index: typing.Sequence[int], data: typing.Sequence[int], trieType: int, valueWidth: int, index3NullOffset: int, dataNullOffset: int, highStart: int, shifted12HighStart: int):
         self.trieType = trieType
         self.valueWidth = valueWidth
-        self.indexLength = index[0]
+        self.indexLength = len(index)
         self.dataLength = len(data)
         self.index3NullOffset = index3NullOffset
         self.dataNullOffset = dataNullOffset
-- 
2.43.0


From 896f86d8ba848a79520f030ac0a0bba9922bb8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 15/20] fix: getBinaryProp read the next row for a column that
 does not exist

---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 6c9e45f..499a03d 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -377,7 +377,7 @@ def binaryPropFromVecIndex(vecIndex: int, propShift: int, column: int) -> bool:
     return (props & (1 << propShift)) != 0
 
 def getBinaryProp(c: int, propShift: int, column: int = 1) -> bool:
-    if propShift >= UPROPS_BINARY_1_TOP:
+    if propShift >= UPROPS_BINARY_1_TOP or column >= propsVectorsColumns:
         return False  # Used to be None
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From 38b92380a9b16f00d8a83eee8d654040dd5382d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 16/20] fix: CharNames.nameIterator skipped algorithmic ranges
 that share a block with stored names

---
 UnicodeData/CharNames.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 59100b4..f219c21 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -458,25 +458,9 @@ class CharNames(object):
 
     @classmethod
     def nameIterator(cls, nameChoice: int =U_UNICODE_CHAR_NAME) -> typing.Iterator[tuple[int, str]]:
-        charLimit = max(cls._groups[-1].charRange.stop, cls._algorithmicRanges[-1].charRange.stop)
-        char = 0
-        algRange = 0
-        while char < charLimit:
-            group = cls.getGroup(char)
-            if group and char in group.charRange:
-                # group.nameChoice = self.nameChoice
-                for (code, name) in group.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = group.charRange.stop
-            elif algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
-                algorithmicRange = cls._algorithmicRanges[algRange]
-                # algorithmicRange.nameChoice = self.nameChoice
-                for (code, name) in algorithmicRange.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = algorithmicRange.charRange.stop
-                algRange += 1
-            else:
-                char += LINES_PER_GROUP
+        for charRange in sorted([*cls._groups, *cls._algorithmicRanges], key=lambda r: r.charRange.start):
+            for (code, name) in charRange.nameIterator(nameChoice):
+                if name: yield (code, name)
 
     @classmethod
     def charFromName(cls, theName: str, nameChoice:int=U_UNICODE_CHAR_NAME) -> int:
-- 
2.43.0


From e661d511b59ef592bb63d3d3c1bd1be4c9ec257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 17/20] fix: getRawDecomposition split a surrogate pair whose
 lead replaces the start of the normal mapping

---
 UnicodeData/Normalizer2.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/UnicodeData/Normalizer2.py b/UnicodeData/Normalizer2.py
index a4de2cb..c9ea4d9 100644
--- a/UnicodeData/Normalizer2.py
+++ b/UnicodeData/Normalizer2.py
@@ -222,9 +222,9 @@ class Normalizer2(object):
     def getMappingIndex(self, norm16: int) -> int:
         return norm16 >> OFFSET_SHIFT
 
-    def stringFromData(self, index: int, length: int) -> str:
+    def stringFromData(self, index: int, length: int, lead: int = 0) -> str:
         s = ""
-        lead = 0  # for the lead byte of a surrogate pair
+        # lead is the lead surrogate of a surrogate pair
         for i in range(length):
             ch = self.extraData[index + i]
 
@@ -272,6 +272,7 @@ class Normalizer2(object):
 
     def getRawDecomposition(self, c: int) -> typing.Optional[str]:
         decomposition = ""
+        lead = 0
         norm16 = self.getNorm16(c)
         if c < self.minDecompNoCP or self.isDecompYes(norm16):
             # c does not decompose
@@ -301,7 +302,10 @@ class Normalizer2(object):
                 ix = rawMappingIndex - rm0
             else:
                 # Copy the normal mapping and replace its first two code units with rm0.
-                decomposition += chr(rm0)
+                if isLead(rm0):
+                    lead = rm0
+                else:
+                    decomposition += chr(rm0)
                 ix += 3
                 length -= 2
         else:
@@ -309,7 +313,7 @@ class Normalizer2(object):
 
         if not decomposition and length == 0: return None
 
-        decomposition += self.stringFromData(ix, length)
+        decomposition += self.stringFromData(ix, length, lead)
 
         return decomposition
 
-- 
2.43.0


From 1d272d4f65aa2279ea4352d7b85c88ea9a6938b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 18/20] fix: names of the supplementary private use blocks in
 Blocks were no Unicode block names

---
 UnicodeData/Blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index e3f2af4..322ca0d 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -895,8 +895,8 @@ blockNames = {
     UBLOCK_SUPPLEMENTAL_MATHEMATICAL_OPERATORS: "Sup Math Operators",
     UBLOCK_KATAKANA_PHONETIC_EXTENSIONS: "Katakana Ext",
     UBLOCK_VARIATION_SELECTORS: "VS",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Supary Private Use Area A",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Supary Private Use Area B",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Sup PUA A",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Sup PUA B",
     UBLOCK_LIMBU: "Limbu",
     UBLOCK_TAI_LE: "Tai Le",
     UBLOCK_KHMER_SYMBOLS: "Khmer Symbols",
-- 
2.43.0


From d5a7c93cdb96d328a0571993e72ea30ab428b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 19/20] fix: alias constants were one-element tuples because of
 trailing commas

---
 UnicodeData/BidiProps.py |  2 +-
 UnicodeData/Blocks.py    |  4 ++--
 UnicodeData/Scripts.py   | 10 +++++-----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/UnicodeData/BidiProps.py b/UnicodeData/BidiProps.py
index 57fb1e4..48ecf49 100644
--- a/UnicodeData/BidiProps.py
+++ b/UnicodeData/BidiProps.py
@@ -25,7 +25,7 @@ UBIDI_IX_JG_LIMIT = 5
 UBIDI_IX_JG_START2 = 6  # *new in format version 2.2, ICU 54
 UBIDI_IX_JG_LIMIT2 = 7
 
-UBIDI_MAX_VALUES_INDEX = 15,
+UBIDI_MAX_VALUES_INDEX = 15
 UBIDI_IX_TOP = 16
 
 # definitions for 16-bit bidi/shaping properties word
diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index 322ca0d..e323f34 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -261,7 +261,7 @@ UBLOCK_PRIVATE_USE_AREA = 78  # [E000]
 #
 #* @ stable ICU 2.0
 
-UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA,
+UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA
 
 # @stable ICU 2.0
 UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS = 79  # [F900]
@@ -319,7 +319,7 @@ UBLOCK_CYRILLIC_SUPPLEMENT = 97  # [0500]
 # Unicode 4.0.1 renames the "Cyrillic Supary" block to "Cyrillic Sup".
 # @ stable ICU 2.2
 
-UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT,
+UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT
 # @stable ICU 2.2
 UBLOCK_TAGALOG = 98  # [1700]
 # @stable ICU 2.2
diff --git a/UnicodeData/Scripts.py b/UnicodeData/Scripts.py
index e3a4649..7093e90 100644
--- a/UnicodeData/Scripts.py
+++ b/UnicodeData/Scripts.py
@@ -48,7 +48,7 @@ USCRIPT_THAANA       = 37  # 'Thaa'
 USCRIPT_THAI         = 38  # 'Thai'
 USCRIPT_TIBETAN      = 39  # 'Tibt'
 USCRIPT_CANADIAN_ABORIGINAL = 40  # 'Cans'
-USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL,
+USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL
 USCRIPT_YI           = 41  # 'Yiii'
 
 # New scripts in Unicode 3.2
@@ -103,17 +103,17 @@ USCRIPT_LATIN_GAELIC                  = 81  # 'Latg'
 USCRIPT_LEPCHA                        = 82  # 'Lepc'
 USCRIPT_LINEAR_A                      = 83  # 'Lina'
 USCRIPT_MANDAIC                       = 84  # 'Mand'
-USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC,
+USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC
 USCRIPT_MAYAN_HIEROGLYPHS             = 85  # 'Maya'
 USCRIPT_MEROITIC_HIEROGLYPHS          = 86  # 'Mero'
-USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS,
+USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS
 USCRIPT_NKO                           = 87  # 'Nkoo'
 USCRIPT_ORKHON                        = 88  # 'Orkh'
 USCRIPT_OLD_PERMIC                    = 89  # 'Perm'
 USCRIPT_PHAGS_PA                      = 90  # 'Phag'
 USCRIPT_PHOENICIAN                    = 91  # 'Phnx'
 USCRIPT_MIAO                          = 92  # 'Plrd'
-USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO,
+USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO
 USCRIPT_RONGORONGO                    = 93  # 'Roro'
 USCRIPT_SARATI                        = 94  # 'Sara'
 USCRIPT_ESTRANGELO_SYRIAC             = 95  # 'Syre'
@@ -167,7 +167,7 @@ USCRIPT_OLD_NORTH_ARABIAN             = 142  # 'Narb'
 USCRIPT_NABATAEAN                     = 143  # 'Nbat'
 USCRIPT_PALMYRENE                     = 144  # 'Palm'
 USCRIPT_KHUDAWADI                     = 145  # 'Sind'
-USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI,
+USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI
 USCRIPT_WARANG_CITI                   = 146  # 'Wara'
 USCRIPT_AFAKA                         = 147  # 'Afak'
 USCRIPT_JURCHEN                       = 148  # 'Jurc'
-- 
2.43.0


From 02f7183eff9d48fbb913faebdea98f0a8b70536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:37 +0000
Subject: [PATCH 20/20] fix: trailing comments of header lines may be empty or
 contain a dollar sign

---
 module_builder/HeaderToPtyhon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 2bbc0b7..3a70a88 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -14,8 +14,8 @@ import re
 from pathlib import Path
 
 firstTokenRE = re.compile(r"([^\s]+)")  # first token on a line
-cCommentRE = re.compile(r"/\*\*?(.+?)\*/")  # a /*...*/ comment
-eolCommentRE = re.compile(r"//\s*([^$]+)$")  # //... to end of line comment
+cCommentRE = re.compile(r"/\*\*?(.*?)\*/")  # a /*...*/ comment
+eolCommentRE = re.compile(r"//\s*(.*)$")  # //... to end of line comment
 macroDefineRE = re.compile(r"#define (\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
 typedefEnumRE = re.compile(r"typedef\s+enum\s*\w*\s*\{?")
 endOfEnumRE = re.compile(r"\}\s*\w*\s*;")  # } name ;  with optional name
-- 
2.43.0

