From 86c16924838a263a044dcf0b27a47d7d0e19afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 01/30] fix: do not loop forever on a truncated packet length
 in PLT/PLM

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5f5ef9e..2b6e9e5 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -267,7 +267,9 @@ class BoxValidator:
         while i < lpl and i < len(
                 self.boxContents):  # Don't over-read on bad lplt/lplm
             ipl_i_len = 1  # number of bytes making up the current ipl(t|m)_i
-            while bc.bytesToUnsignedChar(
+            # Stop at the end of the segment, also if the last byte signals that
+            # more bytes should follow (truncated packet length)
+            while i + ipl_i_len < len(self.boxContents) and bc.bytesToUnsignedChar(
                     self.boxContents[i + ipl_i_len - 1:i + ipl_i_len]) & 0x80:
                 ipl_i_len += 1
 
-- 
2.43.0


From 1d41497be4211cea8f7b113644229b376ad10a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 02/30] fix: keep all bits of packet lengths of more than two
 bytes in PLT/PLM

---
 jpylyzer/boxvalidator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 2b6e9e5..18c4900 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -274,11 +274,11 @@ class BoxValidator:
                 ipl_i_len += 1
 
             # Join all the segments together
-            iplt_i = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
-            for ipl_index in range(1, ipl_i_len):
-                iplt_i = (iplt_i & 0x7F) << 7
+            iplt_i = 0
+            for ipl_index in range(ipl_i_len):
+                iplt_i <<= 7
                 iplt_i |= bc.bytesToUnsignedChar(
-                    self.boxContents[i + ipl_index:i + ipl_index + 1])
+                    self.boxContents[i + ipl_index:i + ipl_index + 1]) & 0x7F
 
             i += ipl_i_len
             iplt += ('{:0' + str(2 * ipl_i_len) + 'X},').format(iplt_i)
-- 
2.43.0


From 45576e51e7142f105b0f752e3459ea604c6579d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 03/30] fix: do not move backwards (endless loop) after a
 truncated SOT segment

---
 jpylyzer/boxvalidator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 18c4900..0a2a1d9 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1675,12 +1675,13 @@ class BoxValidator:
                         # tilePartsPerTileFound (e.g. because the isot field is
                         # damaged)
                         break
-                    if offsetNext != offset:
+                    if offsetNext > offset:
                         offset = offsetNext
                     else:
                         # offsetNext same as offset: this happens if image only contains
                         # one single tile-part (psot=0), in which case we break out of
-                        # this loop
+                        # this loop. It is smaller than offset if psot could not be
+                        # decoded (truncated SOT marker segment)
                         break
 
             # Length of tileIndices must equal numberOfTilesExpected
-- 
2.43.0


From a37f5a6551a6a4d8098474ba1a17ef3b6c8b67a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 04/30] fix: report capability for all rsiz values

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 0a2a1d9..d6121ec 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1810,6 +1810,8 @@ class BoxValidator:
                 capability = "Scalable 4K digital cinema profile"
             elif mainLevel == 7:
                 capability = "Long-term storage profile"
+            else:
+                capability = "Unknown (value not defined in ISO/IEC 15444-1)"
         elif profile == 1:
             capability = "Broadcast Contribution Single Tile Profile, Mainlevel " + \
                 str(mainLevel)
@@ -1832,7 +1834,7 @@ class BoxValidator:
             capability = "2k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 8:
-            rsiz = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
+            capability = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 9:
             capability = "8k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
-- 
2.43.0


From 3c916cc08f081261b1227d172d4069f79348d1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 05/30] fix: use vertical image offset in codestream
 compression ratio

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index d6121ec..53623f2 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1732,7 +1732,7 @@ class BoxValidator:
                 # Calculate compression ratio
                 ssizDepthValues = characteristicsSIZ.findAllText('ssizDepth')
                 ysiz = characteristicsSIZ.findElementText('ysiz')
-                yOsiz = characteristicsSIZ.findElementText('xOsiz')
+                yOsiz = characteristicsSIZ.findElementText('yOsiz')
                 xsiz = characteristicsSIZ.findElementText('xsiz')
                 xOsiz = characteristicsSIZ.findElementText('xOsiz')
 
-- 
2.43.0


From 37889c342f04c0a4bbef1bfd90d28f995640ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 06/30] fix: only accept bPC value 255 as variable bit depth

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 53623f2..63fc90c 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -537,7 +537,7 @@ class BoxValidator:
         # 1. bPCDepth in range 1-38 (including limits)
         # 2. OR bPC equal 255 (indicating that components vary in bit depth)
         bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38
-        bitDepthIsVariable = 1 <= bPC <= 255
+        bitDepthIsVariable = bPC == 255
 
         if bPCDepthIsWithinAllowedRange or bitDepthIsVariable:
             bPCIsValid = True
-- 
2.43.0


From a702e4d7d69df31b3be17b3bc64a5165e1a64902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 07/30] fix: read QCC quantization values after the sqcc field

---
 jpylyzer/boxvalidator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 63fc90c..e5e7f07 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2527,6 +2527,7 @@ class BoxValidator:
 
         # Quantization style for this component
         sqcc = bc.bytesToUnsignedChar(self.boxContents[offset:offset + 1])
+        offset += 1
 
         # sqcc contains 2 quantization parameters: style + no of guard bits
 
-- 
2.43.0


From ff0a0bdb9a0005b8334f958ac9174ab5f080e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 08/30] fix: analyse files with a zero resolution denominator

---
 jpylyzer/boxvalidator.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index e5e7f07..812b054 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -229,6 +229,14 @@ class BoxValidator:
 
         return compressionRatio
 
+    def _calculateResolution(self, numerator, denominator, exponent):
+        """Compute grid resolution in pixels per meter."""
+        if denominator == 0:
+            # Not defined (and not valid), return bogus value
+            return -9999
+
+        return (numerator / denominator) * (10 ** (exponent))
+
     def _getBitValue(self, n, p, wordLength=8):
         """Get the bit value of denary (base 10) number n.
 
@@ -1215,11 +1223,11 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        vRescInPixelsPerMeter = self._calculateResolution(vRcN, vRcD, vRcE)
         self.addCharacteristic(
             "vRescInPixelsPerMeter", round(vRescInPixelsPerMeter, 2))
 
-        hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        hRescInPixelsPerMeter = self._calculateResolution(hRcN, hRcD, hRcE)
         self.addCharacteristic(
             "hRescInPixelsPerMeter", round(hRescInPixelsPerMeter, 2))
 
@@ -1274,11 +1282,11 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        vResdInPixelsPerMeter = self._calculateResolution(vRdN, vRdD, vRdE)
         self.addCharacteristic(
             "vResdInPixelsPerMeter", round(vResdInPixelsPerMeter, 2))
 
-        hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        hResdInPixelsPerMeter = self._calculateResolution(hRdN, hRdD, hRdE)
         self.addCharacteristic(
             "hResdInPixelsPerMeter", round(hResdInPixelsPerMeter, 2))
 
-- 
2.43.0


From 5415a695048653e5d3e87dfd6c725e2d1b3ecf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 09/30] fix: analyse files with a UUID box that is shorter than
 a UUID

---
 jpylyzer/boxvalidator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 812b054..4cc18d6 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3326,7 +3326,11 @@ class BoxValidator:
 
         # First 16 bytes contain UUID, convert to string of hex digits
         # in standard form
-        boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
+        if boxLength >= 16:
+            boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
+        else:
+            # UUID field is incomplete
+            boxUUID = None
 
         if boxUUID == "be7acfcb-97a9-42e8-9c71-999491e3afac":
             # XMP packet
@@ -3358,7 +3362,7 @@ class BoxValidator:
                         pass
 
             self.testFor("containsWellformedXML", containsWellformedXML)
-        else:
+        elif boxUUID is not None:
             # Only add to UUID to characteristics tree
             self.addCharacteristic("uuid", boxUUID)
 
-- 
2.43.0


From faff73b09e675ee00be3f233b6bc32e21a10af46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 10/30] fix: analyse files with an incomplete UUID list

---
 jpylyzer/boxvalidator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 4cc18d6..41c7be9 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3428,6 +3428,9 @@ class BoxValidator:
         # Loop through all UUIDs
         offset = 2
         for _ in range(nU):
+            if offset + 16 > len(self.boxContents):
+                # List is incomplete
+                break
             boxUUID = str(
                 uuid.UUID(bytes=self.boxContents[offset:offset + 16]))
             self.addCharacteristic("uuid", boxUUID)
-- 
2.43.0


From bd13a666c2e7c952507ddea4e68d011620690aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 11/30] fix: do not take a truncated box type for a codestream
 marker

---
 jpylyzer/boxvalidator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 41c7be9..8fbda82 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -143,6 +143,10 @@ class BoxValidator:
         # Box type
         boxType = self.boxContents[byteStart + 4:byteStart + 8]
 
+        # If file ends before end of box type, pad it to 4 bytes. This way it can never
+        # be mistaken for a (2-byte) codestream marker
+        boxType = boxType.ljust(4, b'\x00')
+
         # Start byte of box contents
         contentsStartOffset = 8
 
-- 
2.43.0


From 76bf12e2a668add2a904ad7c45a11c243abce53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 12/30] fix: test cAssoc (not cTyp) in cAssocIsValid

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 8fbda82..884a88e 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1113,7 +1113,7 @@ class BoxValidator:
             self.addCharacteristic("cAssoc", cAssoc)
 
             # Allowed range: 0 - 65535
-            self.testFor("cAssocIsValid", 0 <= cTyp <= 65535)
+            self.testFor("cAssocIsValid", 0 <= cAssoc <= 65535)
 
             if cTyp in [1, 2]:
                 alphaChannels.append([cTyp, cAssoc])
-- 
2.43.0


From 6ac501963a034ebcdb6950e4607e0c0e6f9867a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 13/30] fix: read all PRF/CPF entries and test the last one

---
 jpylyzer/boxvalidator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 884a88e..04d2418 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2887,7 +2887,8 @@ class BoxValidator:
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             PRFnum += pprf * 2 ** (16 * i)
-            if i == nopprfs:
+            offset += 2
+            if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
 
@@ -2915,7 +2916,8 @@ class BoxValidator:
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             CPFnum += pcpf * 2 ** (16 * i)
-            if i == nopcpfs:
+            offset += 2
+            if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
                     self.testFor("pcpfIsValid", pcpf != 0)
-- 
2.43.0


From c7be2e0866094b85c06766835cf60ebceca38b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 14/30] fix: report lcpfIsValid under its documented name

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 04d2418..5f217b6 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2904,7 +2904,7 @@ class BoxValidator:
 
         # lcpf  must be within range 4-65534
         if self.format in ['jph', 'jhc']:
-            self.testFor("lcpIsValid", 4 <= lcpf <= 65534)
+            self.testFor("lcpfIsValid", 4 <= lcpf <= 65534)
 
         # Number of pcpf entries
         nopcpfs = int((lcpf - 2) / 2)
-- 
2.43.0


From 85f7a66a9423ef70083482fcddc9d8b616cd54da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 15/30] fix: an out of range tile index does not count as an
 expected tile

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5f217b6..a94a75d 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1697,8 +1697,10 @@ class BoxValidator:
                         break
 
             # Length of tileIndices must equal numberOfTilesExpected
+            # (and all indices must refer to an expected tile)
             self.testFor("foundExpectedNumberOfTiles", len(
-                tileIndices) == numberOfTilesExpected)
+                tileIndices) == numberOfTilesExpected and all(
+                    i in tilePartsPerTileFound for i in tileIndices))
 
             # Found numbers of tile	parts per tile must match expected
             if tilePartsPerTileExpected:
-- 
2.43.0


From f9a54d59b6b3ac453b6c0b93b007a31191b31909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 16/30] fix: do not require tnsot for all tiles if one tile
 defines it

---
 jpylyzer/boxvalidator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index a94a75d..23c93ca 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1704,8 +1704,10 @@ class BoxValidator:
 
             # Found numbers of tile	parts per tile must match expected
             if tilePartsPerTileExpected:
-                self.testFor("foundExpectedNumberOfTileParts",
-                            tilePartsPerTileExpected == tilePartsPerTileFound)
+                # (number is not known for tiles where tnsot is always 0)
+                self.testFor("foundExpectedNumberOfTileParts", all(
+                    tilePartsPerTileFound.get(i) == n
+                    for i, n in tilePartsPerTileExpected.items()))
 
             # Add tile-part tests, characteristics and warnings to tree
             self.tests.appendIfNotEmpty(tilePartTests)
-- 
2.43.0


From 0814bab85a0f5387bf759081c4dcb546174bcc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 17/30] fix: report integers of any number of digits

---
 jpylyzer/etpatch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/etpatch.py b/jpylyzer/etpatch.py
index 741d15e..7ac7bf9 100644
--- a/jpylyzer/etpatch.py
+++ b/jpylyzer/etpatch.py
@@ -19,6 +19,7 @@ TODO:
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #
 
+import decimal
 import xml.etree.ElementTree as ET
 from . import byteconv as bc
 from . import config
@@ -122,6 +123,9 @@ class Element(ET.Element):
                 # Convert text field, depending on type
                 if textType == bytes:
                     textOut = bc.bytesToText(remappedValue)
+                elif textType == int:
+                    # Unlike str(int), this has no upper limit on number of digits
+                    textOut = str(decimal.Decimal(remappedValue))
                 elif textType in numericTypes:
                     textOut = str(remappedValue)
                 else:
-- 
2.43.0


From 719771c05ff9f040a5619f3a9546b8fbdce03dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 18/30] fix: handle last modified dates that cannot be
 represented

---
 jpylyzer/jpylyzer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b95af40..c4b714f 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,7 +33,6 @@ Contributors:
 
 import sys
 import os
-import time
 import datetime
 import glob
 import argparse
@@ -365,10 +364,10 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except ValueError:
+    except (ValueError, OverflowError, OSError):
         # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
-        dt = time.ctime(0)
+        dt = 0
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
     fileInfo.appendChildTagWithText(
         "fileLastModified", lastModifiedDate)
-- 
2.43.0


From 7a52025bf17af58f5a108ef5ff39926f846a27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 19/30] fix: report I/O errors as such

---
 jpylyzer/jpylyzer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index c4b714f..0e97a0d 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -423,13 +423,12 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     except Exception as ex:
         fileIsValid = False
         success = False
-        exceptionType = type(ex)
 
-        if exceptionType == MemoryError:
+        if isinstance(ex, MemoryError):
             failureMessage = "memory error (file size too large)"
-        elif exceptionType == IOError:
+        elif isinstance(ex, IOError):
             failureMessage = "I/O error (cannot open file)"
-        elif exceptionType == RuntimeError:
+        elif isinstance(ex, RuntimeError):
             failureMessage = "runtime error, please report to developers by creating " + \
                              "an issue at https://github.com/openpreserve/jpylyzer/issues"
         else:
-- 
2.43.0


From 91e6dab18498343183a099dc1f7df886ecbe70fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 20/30] fix: report files whose name contains characters that
 XML does not allow

---
 jpylyzer/jpylyzer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 0e97a0d..7295747 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,6 +33,7 @@ Contributors:
 
 import sys
 import os
+import re
 import datetime
 import glob
 import argparse
@@ -353,8 +354,9 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
 
     # If file name / path contain any surrogate pairs, remove them to
     # avoid problems when writing to XML
-    fileNameCleaned = stripSurrogatePairs(fileName)
-    filePathCleaned = stripSurrogatePairs(filePath)
+    # Same for any characters that are not allowed in XML
+    fileNameCleaned = stripIllegalXMLCharacters(stripSurrogatePairs(fileName))
+    filePathCleaned = stripIllegalXMLCharacters(stripSurrogatePairs(filePath))
 
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
@@ -511,6 +513,11 @@ def stripSurrogatePairs(ustring):
     return ustring
 
 
+def stripIllegalXMLCharacters(ustring):
+    """Remove characters that are not allowed in XML 1.0 from a Unicode string."""
+    return re.sub('[^\t\n\r\u0020-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]', '', ustring)
+
+
 def getFiles(searchpattern):
     """Append paths of all files that match search pattern to EXISTING_FILES."""
     results = glob.glob(searchpattern)
-- 
2.43.0


From 68bba385d86e1ccd2c1b501dcd4bb196f34808b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:31 +0000
Subject: [PATCH 21/30] fix: skip dangling links and special files when
 recursing into a directory

---
 jpylyzer/jpylyzer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 7295747..996279e 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -553,7 +553,9 @@ def getFilesFromTree(rootDir):
 
         for filename in filenames:
             thisFile = os.path.join(dirname, filename)
-            EXISTING_FILES.append(thisFile)
+            # Skip dangling links, pipes, sockets, ..
+            if os.path.isfile(thisFile):
+                EXISTING_FILES.append(thisFile)
 
 
 def findFiles(recurse, paths):
-- 
2.43.0


From c1a445958b51ef6798959ac18c3cffa72000505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:31 +0000
Subject: [PATCH 22/30] fix: find files in directories whose name contains
 wildcard characters

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 996279e..d6e2dcc 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -536,7 +536,7 @@ def getFilesWithPatternFromTree(rootDir, pattern):
         for subdirname in dirnames:
             thisDirectory = os.path.join(dirname, subdirname)
             # find files matching the pattern in current path
-            searchpattern = os.path.join(thisDirectory, pattern)
+            searchpattern = os.path.join(glob.escape(thisDirectory), pattern)
             getFiles(searchpattern)
 
 
-- 
2.43.0


From 58424c422d514f98f3db239bb6d067b7298d49b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:31 +0000
Subject: [PATCH 23/30] fix: do not report files of earlier checkFiles calls
 again

---
 jpylyzer/jpylyzer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index d6e2dcc..d43f138 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -669,6 +669,7 @@ def checkFiles(recurse, paths):
     locSchemaString = LOC_SCHEMA_STRING_2
 
     # Find existing files in the given input path(s)
+    del EXISTING_FILES[:]
     findFiles(recurse, paths)
 
     # If there are no valid input files then exit program
-- 
2.43.0


From d71541c8414b6d116fd7cd6b8a532337eb73a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:31 +0000
Subject: [PATCH 24/30] fix: ignore mix option for codestream formats

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index d43f138..a32c616 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -443,7 +443,7 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         warnings.appendChildTagWithText("warning", failureMessage)
         shared.printWarning(failureMessage)
 
-    if mixFlag != 0 and fileIsValid:
+    if mixFlag != 0 and validationFormat in ['jp2', 'jph'] and fileIsValid:
         mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
 
     # Add status info
-- 
2.43.0


From a4f42aea58762033556b1f6e42dea3a31c6105cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:31 +0000
Subject: [PATCH 25/30] fix: generate mix output for XMP without
 rdf:Description

---
 jpylyzer/mix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 25bde6d..bcccfff 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -159,7 +159,10 @@ class Mix:
         if value is not None:
             return value.text
 
-        value = prop.find(prefixPath).attrib.get(ns + tag, None)
+        description = prop.find(prefixPath)
+        if description is None:
+            return None
+        value = description.attrib.get(ns + tag, None)
         if value and value is not None:
             return value
         return None
-- 
2.43.0


From c10c6ca934088ebd8a60c6d85e9e3aa094db757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:31 +0000
Subject: [PATCH 26/30] fix: generate mix output for JPH without enumerated
 colourspace

---
 jpylyzer/mix.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index bcccfff..bc88a22 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -104,11 +104,13 @@ class Mix:
             mixPI.append(mixColorProfile)
             mixBic.append(mixPI)
         else:
-            mixPI = ET.Element('mix:PhotometricInterpretation')
-            colorSpace = properties.find(
-                'jp2HeaderBox/colourSpecificationBox/enumCS').text
-            mixPI.appendChildTagWithText('mix:colorSpace', colorSpace.strip())
-            mixBic.append(mixPI)
+            enumCS = properties.find(
+                'jp2HeaderBox/colourSpecificationBox/enumCS')
+            if enumCS is not None:
+                mixPI = ET.Element('mix:PhotometricInterpretation')
+                mixPI.appendChildTagWithText(
+                    'mix:colorSpace', enumCS.text.strip())
+                mixBic.append(mixPI)
         mixBio.append(mixBic)
 
         mixSFC = ET.Element('mix:SpecialFormatCharacteristics')
-- 
2.43.0


From 70c1f28935d72d1be86cdb3f90eebf15d61c006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:46 +0000
Subject: [PATCH 27/30] fix: make the schema describe what jpylyzer writes

vidFRng holds yes/no, resolutions and ICC illuminants are written with
exponents when very large or small, code block sizes are not integral when their
bytes are missing, and damaged boxes and segments have empty repetitions
---
 xsd/jpylyzer-v-2-2.xsd | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index f812e44..68adbca 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -201,7 +201,7 @@
       <xs:sequence>
         <xs:element ref="br"/>
         <xs:element ref="minV"/>
-        <xs:element ref="cL" maxOccurs="unbounded"/>
+        <xs:element ref="cL" minOccurs="0" maxOccurs="unbounded"/>
       </xs:sequence>
     </xs:complexType>
   </xs:element>
@@ -244,7 +244,7 @@
 
   <xs:element name="bitsPerComponentBox">  
     <xs:complexType>
-      <xs:sequence maxOccurs="unbounded">
+      <xs:sequence minOccurs="0" maxOccurs="unbounded">
         <xs:element ref="bPCSign"/>
         <xs:element ref="bPCDepth"/>
       </xs:sequence>
@@ -274,7 +274,7 @@
   <xs:element name="colPrims" type="xs:integer"/>
   <xs:element name="transfC" type="xs:integer"/>
   <xs:element name="matCoeffs" type="xs:integer"/>
-  <xs:element name="vidFRng" type="xs:integer"/>
+  <xs:element name="vidFRng" type="xs:string"/>
 
   <xs:element name="icc">
     <xs:complexType>
@@ -326,9 +326,9 @@
   <xs:element name="polarity" type="xs:string"/>
   <xs:element name="colour" type="xs:string"/>
   <xs:element name="renderingIntent" type="xs:string"/>
-  <xs:element name="connectionSpaceIlluminantX" type="xs:decimal"/>
-  <xs:element name="connectionSpaceIlluminantY" type="xs:decimal"/>
-  <xs:element name="connectionSpaceIlluminantZ" type="xs:decimal"/>
+  <xs:element name="connectionSpaceIlluminantX" type="xs:double"/>
+  <xs:element name="connectionSpaceIlluminantY" type="xs:double"/>
+  <xs:element name="connectionSpaceIlluminantZ" type="xs:double"/>
   <xs:element name="profileCreator" type="xs:string"/>
   <xs:element name="profileID" type="xs:string"/>
   <xs:element name="tag" type="xs:string"/>
@@ -339,7 +339,7 @@
       <xs:sequence>
         <xs:element ref="nE"/>
         <xs:element ref="nPC"/>
-          <xs:sequence maxOccurs="unbounded">
+          <xs:sequence minOccurs="0" maxOccurs="unbounded">
             <xs:element ref="bSign"/>
             <xs:element ref="bDepth"/>
             <xs:element ref="cP" minOccurs="0" maxOccurs="unbounded"/>
@@ -356,7 +356,7 @@
 
   <xs:element name="componentMappingBox">
     <xs:complexType>
-      <xs:sequence maxOccurs="unbounded">
+      <xs:sequence minOccurs="0" maxOccurs="unbounded">
         <xs:element ref="cMP"/>
         <xs:element ref="mTyp"/>
         <xs:element ref="pCol"/>
@@ -372,7 +372,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="n"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="cN"/>
           <xs:element ref="cTyp"/>
           <xs:element ref="cAssoc"/>
@@ -417,10 +417,10 @@
   <xs:element name="hRcD" type="xs:integer"/>
   <xs:element name="vRcE" type="xs:integer"/>
   <xs:element name="hRcE" type="xs:integer"/>
-  <xs:element name="vRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vRescInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vRescInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="displayResolutionBox">
     <xs:complexType>
@@ -445,10 +445,10 @@
   <xs:element name="hRdD" type="xs:integer"/>
   <xs:element name="vRdE" type="xs:integer"/>
   <xs:element name="hRdE" type="xs:integer"/>
-  <xs:element name="vResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vResdInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vResdInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="intellectualPropertyBox">
     <xs:complexType>
@@ -487,7 +487,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="nU"/>
-        <xs:element ref="uuid" maxOccurs="unbounded"/>
+        <xs:element ref="uuid" minOccurs="0" maxOccurs="unbounded"/>
       </xs:sequence>
     </xs:complexType>
   </xs:element>
@@ -561,7 +561,7 @@
         <xs:element ref="yTOsiz"/>
         <xs:element ref="numberOfTiles"/>
         <xs:element ref="csiz"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="ssizSign"/>
           <xs:element ref="ssizDepth"/>
           <xs:element ref="xRsiz"/>
@@ -675,8 +675,8 @@
   <xs:element name="layers" type="xs:integer"/>
   <xs:element name="multipleComponentTransformation" type="xs:string"/>
   <xs:element name="levels" type="xs:integer"/>
-  <xs:element name="codeBlockWidth" type="xs:integer"/>
-  <xs:element name="codeBlockHeight" type="xs:integer"/>
+  <xs:element name="codeBlockWidth" type="xs:decimal"/>
+  <xs:element name="codeBlockHeight" type="xs:decimal"/>
   <xs:element name="codingBypass" type="xs:string"/>
   <xs:element name="resetOnBoundaries" type="xs:string"/>
   <xs:element name="termOnEachPass" type="xs:string"/>
@@ -782,7 +782,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="lpoc"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="rspoc"/>
           <xs:element ref="cspoc"/>
           <xs:element ref="lyepoc"/>
@@ -805,7 +805,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="lcrg"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="xcrg"/>
           <xs:element ref="ycrg"/>
         </xs:sequence>
-- 
2.43.0


From 89de2cdf1f39a0a00de6ff847d4e903137db15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:04 +0000
Subject: [PATCH 28/30] fix: read palette values entry by entry, with the size
 of each column

The values of all columns for one entry are grouped together (ISO/IEC 15444-1
Section I.5.3.4). They were read as if the values were grouped by column, and
from wrong places if columns have different numbers of bytes.
---
 jpylyzer/boxvalidator.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 23c93ca..960ae0b 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -979,6 +979,14 @@ class BoxValidator:
         # nPC within range 1-255
         self.testFor("nPCIsValid", 1 <= nPC <= 255)
 
+        # Number of bytes of the entries in each column. If bDepth is not a multiple
+        # of 8 bits padding bits are added. E.g. if bDepth is 10, C value will be
+        # stored in low 10 bits of 16-bit field
+        bytesPerColumn = []
+        for i in range(nPC):
+            b = bc.bytesToUnsignedChar(self.boxContents[3 + i:4 + i])
+            bytesPerColumn.append(math.ceil(((b & 127) + 1) / 8))
+
         # Following parameters are repeated for each column
         for i in range(nPC):
 
@@ -1000,14 +1008,9 @@ class BoxValidator:
             # limits)
             self.testFor("bDepthIsValid", 1 <= bDepth <= 38)
 
-            # If bDepth is not a multiple of 8 bits add padding bits
-            # E.g. if bDepth is 10, bDepthPadded will be 16 bits, and
-            # C value will be stored in low 10 bits of 16-bit field
-            bDepthPadded = math.ceil(bDepth / 8) * 8
-            bytesPadded = int(bDepthPadded / 8)
-
             # Start offset of cP entries for this column
-            offset = nPC + 3 + i * (nE * bytesPadded)
+            bytesPadded = bytesPerColumn[i]
+            offset = nPC + 3 + sum(bytesPerColumn[:i])
 
             for _ in range(nE):
                 # Get bytes for this entry
@@ -1018,7 +1021,8 @@ class BoxValidator:
                 cP = bc.bytesToInteger(cPAsBytes)
                 self.addCharacteristic("cP", cP)
 
-                offset += bytesPadded
+                # Values of all columns for one entry are grouped together
+                offset += sum(bytesPerColumn)
 
     def validate_componentMappingBox(self):
         """Component mapping box (ISO/IEC 15444-1 Section I.5.3.5).
-- 
2.43.0


From c0b658967848b902c047aaffbc474c6411f4fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:04 +0000
Subject: [PATCH 29/30] fix: read ICC profile flags and device attributes from
 their low bits

Bit 0 of both fields is the least significant bit of the big-endian number,
i.e. in bytes 47 and 63. The most significant bits of the first bytes were
read, so that e.g. embeddedProfile was 'no' for profiles flagged as embedded.
---
 jpylyzer/boxvalidator.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 960ae0b..fd2d0f7 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -831,17 +831,18 @@ class BoxValidator:
         primaryPlatform = self.boxContents[40:44]
         self.addCharacteristic("primaryPlatform", primaryPlatform)
 
-        # Profile flags (bytes 44-47; only first byte read here as remaining bytes
-        # don't contain any meaningful information)
-        profileFlags = bc.bytesToUnsignedChar(self.boxContents[44:45])
+        # Profile flags (bytes 44-47; only last byte read here as remaining bytes
+        # don't contain any meaningful information). Bit 0 is the least
+        # significant one
+        profileFlags = bc.bytesToUnsignedChar(self.boxContents[47:48])
 
         # Embedded profile (0 if not embedded, 1 if embedded in file)
-        embeddedProfile = self._getBitValue(profileFlags, 1)
+        embeddedProfile = self._getBitValue(profileFlags, 8)
         self.addCharacteristic("embeddedProfile", embeddedProfile)
 
         # Profile cannot be used independently from embedded colour data
         # (1 if true, 0 if false)
-        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 2)
+        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 7)
         self.addCharacteristic(
             "profileCannotBeUsedIndependently",
             profileCannotBeUsedIndependently)
@@ -854,24 +855,25 @@ class BoxValidator:
         deviceModel = self.boxContents[52:56]
         self.addCharacteristic("deviceModel", deviceModel)
 
-        # Device attributes (bytes 56-63; only first byte read here as remaining bytes
-        # don't contain any meaningful information)
-        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[56:57])
+        # Device attributes (bytes 56-63; only last byte read here as remaining bytes
+        # don't contain any meaningful information). Bit 0 is the least
+        # significant one
+        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[63:64])
 
         # Transparency (1 = transparent; 0 = reflective)
-        transparency = self._getBitValue(deviceAttributes, 1)
+        transparency = self._getBitValue(deviceAttributes, 8)
         self.addCharacteristic("transparency", transparency)
 
         # Glossiness (1 = matte; 0 = glossy)
-        glossiness = self._getBitValue(deviceAttributes, 2)
+        glossiness = self._getBitValue(deviceAttributes, 7)
         self.addCharacteristic("glossiness", glossiness)
 
         # Media polarity (1 = negative; 0 = positive)
-        polarity = self._getBitValue(deviceAttributes, 3)
+        polarity = self._getBitValue(deviceAttributes, 6)
         self.addCharacteristic("polarity", polarity)
 
         # Media colour (1 = black & white; 0 = colour)
-        colour = self._getBitValue(deviceAttributes, 4)
+        colour = self._getBitValue(deviceAttributes, 5)
         self.addCharacteristic("colour", colour)
 
         # Rendering intent (bytes 64-67, only least-significant 2 bytes used)
-- 
2.43.0


From 612aa0dc655af6dfca581320f37e7520411554dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:36 +0000
Subject: [PATCH 30/30] fix: exit with a nonzero code when a command line is
 refused

errorExit prints an error message and called sys.exit() without an argument,
so that an unsupported value of --format ended with exit code 0, as if the
run had been successful.
---
 jpylyzer/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/shared.py b/jpylyzer/shared.py
index cff0ca9..6200d44 100644
--- a/jpylyzer/shared.py
+++ b/jpylyzer/shared.py
@@ -29,7 +29,7 @@ def errorExit(msg):
     """Print error message to stderr and exit."""
     msgString = ("Error: " + msg + "\n")
     sys.stderr.write(msgString)
-    sys.exit()
+    sys.exit(1)
 
 
 def consecutive(lst):
-- 
2.43.0

