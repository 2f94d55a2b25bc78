From 0f939ccf63f930a02b67470cf4f1bdb1e32fac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:43 +0000
Subject: [PATCH 01/47] fix: GSM-7 extension code 0x0A is form feed; encoding a
 text containing U+00FF raised TypeError

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index ee15ebc..c381dce 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -26,7 +26,7 @@ else: #pragma: no cover
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
 GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
-GSM7_EXTENDED = {chr(0xFF): 0x0A,
+GSM7_EXTENDED = {chr(0x0C): chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
                  #SS2: chr(0x1B),
-- 
2.43.0


From 66513df746404dd9c86eab02eb66ecb412350946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:43 +0000
Subject: [PATCH 02/47] fix: GSM-7 escape handling: trailing escape raised
 StopIteration, unassigned extension codes were dropped, U+001B was sent as an
 escape

---
 gsmmodem/pdu.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index c381dce..491f7fd 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -676,7 +676,7 @@ def encodeGsm7(plaintext, discardInvalid=False):
         plaintext = str(plaintext)
     for char in plaintext:
         idx = GSM7_BASIC.find(char)
-        if idx != -1:
+        if idx != -1 and idx != 0x1B: # code 0x1B is the escape code, not a character
             result.append(idx)
         elif char in GSM7_EXTENDED:
             result.append(0x1B) # ESC - switch to extended table
@@ -702,11 +702,17 @@ def decodeGsm7(encodedText):
     iterEncoded = iter(encodedText)
     for b in iterEncoded:
         if b == 0x1B: # ESC - switch to extended table
-            c = chr(next(iterEncoded))
+            code = next(iterEncoded, None)
+            if code == None:
+                break # Nothing follows the escape code
+            c = chr(code)
             for char, value in dictItemsIter(GSM7_EXTENDED):
                 if c == value:
                     result.append(char)
                     break
+            else:
+                # Not in the extension table: show the character from the default table (a space for a second escape)
+                result.append(GSM7_BASIC[code] if code != 0x1B else ' ')
         else:
             result.append(GSM7_BASIC[b])
     return ''.join(result)
-- 
2.43.0


From 6b51b44d09b52e612f103ca489499ad48d0e1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:43 +0000
Subject: [PATCH 03/47] fix: packing an empty text raised StopIteration, so an
 empty SMS could not be sent

---
 gsmmodem/pdu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 491f7fd..6fce107 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -732,7 +732,9 @@ def packSeptets(octets, padBits=0):
         octets = iter(octets)
     shift = padBits
     if padBits == 0:
-        prevSeptet = next(octets)
+        prevSeptet = next(octets, None)
+        if prevSeptet == None:
+            return result # Nothing to pack
     else:
         prevSeptet = 0x00
     for octet in octets:
-- 
2.43.0


From 43cededf5b97015020d49041a6fbbdf6369b92b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 04/47] fix: decoding GSM-7 user data lost or invented
 characters (header of 6, 13.. octets, empty text after a header, final "@",
 nonzero fill bits)

---
 gsmmodem/pdu.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 6fce107..4011289 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import sys, codecs, math
 from datetime import datetime, timedelta, tzinfo
 from copy import copy
+from itertools import islice
 from .exceptions import EncodingError
 
 # For Python 3 support
@@ -434,16 +435,21 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
         if dataCoding == 0x00: # GSM-7
             # Since we are using 7-bit data, "fill bits" may have been added to make the UDH end on a septet boundary
             shift = ((udhLen + 1) * 8) % 7 # "fill bits" needed to make the UDH end on a septet boundary
-            # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
-            prevOctet = next(byteIter)
-            shift += 1
+            userDataLen -= ((udhLen + 1) * 8 + 6) // 7 # the user data length includes the septets used by the UDH
 
     if dataCoding == 0x00: # GSM-7
-        if udhPresent:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen, prevOctet, shift)
+        if not udhPresent:
+            shift = 0
+        numOctets = (userDataLen * 7 + (7 - shift) % 7 + 7) // 8 # octets used by the message text and fill bits
+        userData = bytearray(islice(byteIter, max(numOctets, 0)))
+        if shift > 0 and len(userData) > 0:
+            # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
+            userDataSeptets = unpackSeptets(userData[1:], None, userData[0], shift + 1)
         else:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen)
-        result['text'] = decodeGsm7(userDataSeptets)
+            userDataSeptets = unpackSeptets(userData)
+        if len(userDataSeptets) < userDataLen and len(userData) == numOctets:
+            userDataSeptets.append(0x00) # a final 0x00 ("@") looks like padding to unpackSeptets
+        result['text'] = decodeGsm7(userDataSeptets[:max(userDataLen, 0)])
     elif dataCoding == 0x02: # UCS2
         result['text'] = decodeUcs2(byteIter, userDataLen)
     else: # 8-bit (data)
-- 
2.43.0


From dd1a56dd9a3e676e5512332393984fcfe5c52e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 05/47] fix: characters outside the Basic Multilingual Plane
 (e.g. emoji) could not be sent and were decoded as surrogate halves

---
 gsmmodem/pdu.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 4011289..693ab67 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -812,7 +812,12 @@ def decodeUcs2(byteIter, numBytes):
     i = 0
     try:
         while i < numBytes:
-            userData.append(unichr((next(byteIter) << 8) | next(byteIter)))
+            unit = (next(byteIter) << 8) | next(byteIter)
+            if unit & 0xFC00 == 0xDC00 and len(userData) > 0 and 0xD800 <= ord(userData[-1]) <= 0xDBFF:
+                # Second half of a surrogate pair
+                userData[-1] = unichr(0x10000 + ((ord(userData[-1]) & 0x3FF) << 10) + (unit & 0x3FF))
+            else:
+                userData.append(unichr(unit))
             i += 2
     except StopIteration:
         # Not enough bytes in iterator to reach numBytes; return what we have
@@ -831,6 +836,11 @@ def encodeUcs2(text):
     """
     result = bytearray()
     for b in map(ord, text):
+        if b > 0xFFFF: # not in the Basic Multilingual Plane; encode as surrogate pair
+            b -= 0x10000
+            result.append(0xD8 | (b >> 18))
+            result.append((b >> 10) & 0xFF)
+            b = 0xDC00 | (b & 0x3FF)
         result.append(b >> 8)
         result.append(b & 0xFF)
     return result
-- 
2.43.0


From 7f783cb1b5fe1ff5a9103d9d594cb526d98c8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 06/47] fix: long texts lost their tail or overflowed a message
 part (part count computed from 160/70 instead of 153/67, escaped characters
 counted once)

---
 gsmmodem/pdu.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 693ab67..2c7c085 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -285,11 +285,24 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         alphabet = 0x00 # GSM-7    
         
     # Check if message should be concatenated
-    if len(text) > MAX_MESSAGE_LENGTH[alphabet]:
+    if alphabet == 0x00:
+        charSizes = [len(encodeGsm7(char)) for char in text] # septets
+    else:
+        charSizes = [len(encodeUcs2(char)) // 2 for char in text] # 16-bit units
+    if sum(charSizes) > MAX_MESSAGE_LENGTH[alphabet]:
         # Text too long for single PDU - add "concatenation" User Data Header
         concatHeaderPrototype = Concatenation()
         concatHeaderPrototype.reference = reference
-        pduCount = int(len(text) / MAX_MESSAGE_LENGTH[alphabet]) + 1
+        # Split the text without breaking up any character
+        textParts = []
+        partSize = MAX_MESSAGE_LENGTH[0x00]
+        for char, charSize in zip(text, charSizes):
+            if partSize + charSize > (153 if alphabet == 0x00 else 67):
+                textParts.append('')
+                partSize = 0
+            textParts[-1] += char
+            partSize += charSize
+        pduCount = len(textParts)
         concatHeaderPrototype.parts  = pduCount
         tpduFirstOctet |= 0x40
     else:
@@ -309,10 +322,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         if concatHeaderPrototype != None:
             concatHeader = copy(concatHeaderPrototype)
             concatHeader.number = i + 1
-            if alphabet == 0x00:
-                pduText = text[i*153:(i+1) * 153]
-            elif alphabet == 0x08:
-                pduText = text[i * 67 : (i + 1) * 67]
+            pduText = textParts[i]
             udh.extend(concatHeader.encode())
         else:
             pduText = text
-- 
2.43.0


From f66b7334543c362535c3a8d3398c1954c5e3c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 07/47] fix: decodeSmsPdu leaked
 StopIteration/ValueError/IndexError on truncated or malformed PDUs instead of
 raising EncodingError

---
 gsmmodem/pdu.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 2c7c085..9db9127 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -373,6 +373,23 @@ def decodeSmsPdu(pdu):
     
     :raise EncodingError: If the specified PDU data cannot be decoded
     
+    :return: The decoded SMS data as a dictionary
+    :rtype: dict    
+    """ 
+    try:
+        return _decodeSmsPdu(pdu)
+    except (StopIteration, ValueError, LookupError, TypeError) as e:
+        # The data ended prematurely, or contains an invalid field
+        raise EncodingError('Invalid PDU data: {0!r}'.format(e))
+
+def _decodeSmsPdu(pdu):
+    """ Decodes SMS pdu data and returns a tuple in format (number, text)
+    
+    :param pdu: PDU data as a hex string, or a bytearray containing PDU octects
+    :type pdu: str or bytearray
+    
+    :raise EncodingError: If the specified PDU data cannot be decoded
+    
     :return: The decoded SMS data as a dictionary
     :rtype: dict    
     """ 
-- 
2.43.0


From ea7d4ea7020368d776774f5770b732005ed1ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 08/47] fix: text-mode time stamps lost the half and quarter
 hours of their time zone

---
 gsmmodem/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/util.py b/gsmmodem/util.py
index 1008e5c..0afdb73 100644
--- a/gsmmodem/util.py
+++ b/gsmmodem/util.py
@@ -41,7 +41,7 @@ def parseTextModeTimeStr(timeStr):
     :rtype: datetime.datetime
     """
     msgTime = timeStr[:-3]
-    tzOffsetHours = int(int(timeStr[-3:]) * 0.25)
+    tzOffsetHours = int(timeStr[-3:]) * 0.25
     return datetime.strptime(msgTime, '%y/%m/%d,%H:%M:%S').replace(tzinfo=SimpleOffsetTzInfo(tzOffsetHours))
 
 def lineStartingWith(string, lines):
-- 
2.43.0


From 27d0685b13934a5f189e3b4481b07f4bb9eacb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:04 +0000
Subject: [PATCH 09/47] fix: unpacking an empty septet string raised TypeError

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 9db9127..5b85d45 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -826,7 +826,7 @@ def unpackSeptets(septets, numberOfSeptets=None, prevOctet=None, shift=7):
         
         if i == numberOfSeptets:
             break
-    if shift == 7:
+    if shift == 7 and prevOctet != None:
         b = prevOctet >> (8 - shift)
         if b:
             # The final septet value still needs to be unpacked
-- 
2.43.0


From a06dbc8d3e31740514632f549998b0a0e6f1755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:35 +0000
Subject: [PATCH 10/47] fix: decoding a message address with zero digits left
 its type-of-address octet unread, so every following field was misread

---
 gsmmodem/pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 5b85d45..d181b68 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -600,8 +600,11 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
             if ton == 0x10: # International number
                 addressValue = '+' + addressValue
             return (addressValue, (addressLen + 1))
-    else:
+    elif smscField:
         return (None, 1)
+    else:
+        next(byteIter) # an empty message address still has its type-of-address octet
+        return (None, 2)
 
 def _encodeAddressField(address, smscField=False):
     """ Encodes the address into an address field
-- 
2.43.0


From b5e6888578f96d9bf75071813bab389faab42420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:14 +0000
Subject: [PATCH 11/47] fix: the reported TPDU length of a submit PDU with a
 service centre number included the service centre field

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index d181b68..0cdfaa4 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -361,7 +361,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         else:
             pdu.append(userDataLength)
         pdu.extend(userData) # User Data (message payload)
-        tpdu_length = len(pdu) - 1
+        tpdu_length = len(pdu) - pdu[0] - 1 # exclude the SMSC field
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
-- 
2.43.0


From c1879a4a59b2ea2ed2bd8260ca94ddc38f018baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:12 +0000
Subject: [PATCH 12/47] fix: storing a key that is a prefix of the only key
 below it in the trie overwrote that key

---
 tools/gsmtermlib/trie.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 184a2fd..58b092b 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -23,6 +23,15 @@ class Trie(object):
         if key == None:            
             raise ValueError('Key may not be None')
     
+        if self.key != None and len(self.key) > 0:
+            if self.key == key:
+                self.value = value
+                return
+            # This was a "leaf" previously - create a new branch for its current value
+            self.slots[self.key[0]] = Trie(self.key[1:], self.value)
+            self.key = None
+            self.value = None
+
         if len(key) == 0:
             # All of the original key's chars have been nibbled away            
             self.value = value
@@ -32,21 +41,8 @@ class Trie(object):
         c = key[0]
         
         if c not in self.slots:
-            # Unused slot - no collision
-            if self.key != None and len(self.key) > 0:
-                # This was a "leaf" previously - create a new branch for its current value
-                branchC = self.key[0]
-                branchKey = self.key[1:] if len(self.key) > 1 else ''                            
-                self.slots[branchC] = Trie(branchKey, self.value)
-                self.key = None
-                self.value = None
-                if branchC != c:
-                    self.slots[c] = Trie(key[1:], value)
-                else:
-                    self.slots[c][key[1:]] = value
-            else:
-                # Store specified value in a new branch and return                
-                self.slots[c] = Trie(key[1:], value)
+            # Unused slot - no collision; store specified value in a new branch and return                
+            self.slots[c] = Trie(key[1:], value)
         else:
             trie = self.slots[c]
             trie[key[1:]] = value             
-- 
2.43.0


From f0b36cc95374a3322daacd950e533dd3f1cb8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:12 +0000
Subject: [PATCH 13/47] fix: deleting keys left empty nodes in the trie, which
 distorted longestCommonPrefix()

---
 tools/gsmtermlib/trie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 58b092b..6e8011b 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -69,6 +69,8 @@ class Trie(object):
                     del self.slots[c] # Remove the node
             else:
                 del trie[key[1:]]
+                if trie.key == None and len(trie.slots) == 0:
+                    del self.slots[c] # Remove the empty node
         else:
             raise KeyError(key)
                 
-- 
2.43.0


From 5bfc32b9e79b0ae434d7fc77b2a6146ce23c1d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:12 +0000
Subject: [PATCH 14/47] fix: longestCommonPrefix() returned nothing for
 prefixes that extend a stored key

---
 tools/gsmtermlib/trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 6e8011b..4ad41b3 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -165,7 +165,7 @@ class Trie(object):
                     return self.slots[c]._longestCommonPrefix('', prefix + c)
                 else:
                     return prefix
-        elif self.key != None:
+        elif self.key != None and len(self.key) > 0:
             if self.key.startswith(key):
                 return prefix + self.key
             else:
-- 
2.43.0


From 705616da7a176612e305572716a001aeaddb6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:12 +0000
Subject: [PATCH 15/47] fix: iterating over a trie raised RuntimeError at the
 end (PEP 479)

---
 tools/gsmtermlib/trie.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 4ad41b3..72e2f67 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -180,5 +180,4 @@ class Trie(object):
     def __iter__(self):
         for k in list(self.keys()):
             yield k
-        raise StopIteration
     
\ No newline at end of file
-- 
2.43.0


From ffdf37f715ca3ad0ba5dbdfd91eb14466781bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 16/47] fix: command completion cleared the input line when
 several commands matched text typed in lower case

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 4bc665d..cd4da6f 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -554,7 +554,7 @@ class GsmTerm(RawTerm):
                     self._refreshInputPrompt(len(self.inputBuffer))
                 return
             else:
-                commonPrefix = self.completion.longestCommonPrefix(''.join(self.inputBuffer))
+                commonPrefix = self.completion.longestCommonPrefix(prefix)
                 self.inputBuffer = list(commonPrefix)
                 self.cursorPos = len(self.inputBuffer)
                 if matchLen > 20:
-- 
2.43.0


From 57a05a9c53ada6917a1a95f2d993bbc12f2d4695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 17/47] fix: command completion of an unknown command ending in
 "=" raised KeyError, which ended the terminal

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index cd4da6f..61c1132 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -569,7 +569,7 @@ class GsmTerm(RawTerm):
 
     def __printCommandSyntax(self, command):
         """ Command-completion helper method: print command syntax """
-        commandHelp = self.completion[command]
+        commandHelp = self.completion.get(command)
         if commandHelp != None and len(commandHelp) > 2:
             commandValues = commandHelp[2]
             #commandDefault = commandHelp[3]
-- 
2.43.0


From e3bdfcff29490a567a2b0e3f370c375d854eeed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 18/47] fix: any line starting with OK, ERROR or a numbered
 error ended a command response

---
 gsmmodem/serial_comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index ac445f5..2035366 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -18,7 +18,7 @@ class SerialComms(object):
     # End-of-line read terminator
     RX_EOL_SEQ = '\r\n'
     # End-of-response terminator
-    RESPONSE_TERM = re.compile(r'^OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT)$')
+    RESPONSE_TERM = re.compile(r'^(OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT))$')
     # Default timeout for serial port reads (in seconds)
     timeout = 1
         
-- 
2.43.0


From 1f0912fa841d62b4827b8dc06c1979ffec9fc136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 19/47] fix: race between the read thread and a command whose
 response completes or times out killed the read thread or lost lines

---
 gsmmodem/serial_comms.py | 47 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 2035366..deffae8 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -38,6 +38,8 @@ class SerialComms(object):
         self._notification = [] # Buffer containing lines from an unsolicited notification from the modem
         # Reentrant lock for managing concurrent write access to the underlying serial port
         self._txLock = threading.RLock()
+        # Lock protecting the response state shared by the read thread and the thread waiting for a response
+        self._rxLock = threading.Lock()
         
         self.notifyCallback = notifyCallbackFunc or self._placeholderCallback        
         self.fatalErrorCallback = fatalErrorCallbackFunc or self._placeholderCallback
@@ -59,15 +61,17 @@ class SerialComms(object):
 
     def _handleLineRead(self, line, checkForResponseTerm=True):
         #print 'sc.hlineread:',line
-        if self._responseEvent and not self._responseEvent.is_set():
-            # A response event has been set up (another thread is waiting for this response)
-            self._response.append(line)
-            if not checkForResponseTerm or self.RESPONSE_TERM.match(line):
-                # End of response reached; notify waiting thread
-                #print 'response:', self._response
-                self.log.debug('response: %s', self._response)
-                self._responseEvent.set()
-        else:            
+        with self._rxLock:
+            responseExpected = self._responseEvent != None and not self._responseEvent.is_set()
+            if responseExpected:
+                # A response event has been set up (another thread is waiting for this response)
+                self._response.append(line)
+                if not checkForResponseTerm or self.RESPONSE_TERM.match(line):
+                    # End of response reached; notify waiting thread
+                    #print 'response:', self._response
+                    self.log.debug('response: %s', self._response)
+                    self._responseEvent.set()
+        if not responseExpected:
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
             if self.serial.inWaiting() == 0:
@@ -120,21 +124,26 @@ class SerialComms(object):
     def write(self, data, waitForResponse=True, timeout=5, expectedResponseTermSeq=None):
         with self._txLock:            
             if waitForResponse:
-                if expectedResponseTermSeq:
-                    self._expectResponseTermSeq = list(expectedResponseTermSeq) 
-                self._response = []
-                self._responseEvent = threading.Event()                
+                responseEvent = threading.Event()
+                with self._rxLock:
+                    if expectedResponseTermSeq:
+                        self._expectResponseTermSeq = list(expectedResponseTermSeq) 
+                    self._response = []
+                    self._responseEvent = responseEvent
                 self.serial.write(data)
-                if self._responseEvent.wait(timeout):
+                responseEvent.wait(timeout)
+                with self._rxLock:
+                    # The read thread may have completed the response up to this point
+                    responseComplete = responseEvent.is_set()
+                    response = self._response
                     self._responseEvent = None
                     self._expectResponseTermSeq = False
-                    return self._response
+                if responseComplete:
+                    return response
                 else: # Response timed out
-                    self._responseEvent = None
-                    self._expectResponseTermSeq = False
-                    if len(self._response) > 0:
+                    if len(response) > 0:
                         # Add the partial response to the timeout exception
-                        raise TimeoutException(self._response)
+                        raise TimeoutException(response)
                     else:
                         raise TimeoutException()
             else:                
-- 
2.43.0


From 9eb8008932966baad588a99d2ae6f04f4cd3c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 20/47] fix: notification lines were held back indefinitely
 when an empty or incomplete line followed them

---
 gsmmodem/serial_comms.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index deffae8..9b9bc10 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -74,12 +74,17 @@ class SerialComms(object):
         if not responseExpected:
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
-            if self.serial.inWaiting() == 0:
-                # No more chars on the way for this notification - notify higher-level callback
-                #print 'notification:', self._notification
-                self.log.debug('notification: %s', self._notification)
-                self.notifyCallback(self._notification)
-                self._notification = []                
+            self._deliverNotification()
+
+    def _deliverNotification(self):
+        """ Hands over the buffered notification lines (if any), unless more are on their way """
+        if len(self._notification) > 0 and self.serial.inWaiting() == 0:
+            # No more chars on the way for this notification - notify higher-level callback
+            #print 'notification:', self._notification
+            self.log.debug('notification: %s', self._notification)
+            notification = self._notification
+            self._notification = []
+            self.notifyCallback(notification)
 
     def _placeholderCallback(self, *args, **kwargs):
         """ Placeholder callback function (does nothing) """
@@ -110,6 +115,8 @@ class SerialComms(object):
                             line = ''.join(rxBuffer) 
                             rxBuffer = []
                             self._handleLineRead(line, checkForResponseTerm=False)                                                
+                    # Do not hold back earlier lines if this data did not complete another one
+                    self._deliverNotification()
             #else:
                 #' <RX timeout>'
         except serial.SerialException as e:
-- 
2.43.0


From 5a2fd32638499a8102bc6bcb67944b2971b0d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 21/47] fix: a response terminator stayed active after its
 response and cut the lines that followed; resetting it could kill the read
 thread

---
 gsmmodem/serial_comms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 9b9bc10..53e8a94 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -70,6 +70,8 @@ class SerialComms(object):
                     # End of response reached; notify waiting thread
                     #print 'response:', self._response
                     self.log.debug('response: %s', self._response)
+                    # Whatever follows is not part of the response
+                    self._expectResponseTermSeq = None
                     self._responseEvent.set()
         if not responseExpected:
             # Nothing was waiting for this - treat it as a notification
@@ -110,8 +112,10 @@ class SerialComms(object):
                         if len(line) > 0:                          
                             #print 'calling handler'                      
                             self._handleLineRead(line)
-                    elif self._expectResponseTermSeq:
-                        if rxBuffer[-len(self._expectResponseTermSeq):] == self._expectResponseTermSeq:
+                    else:
+                        # The waiting thread may reset this at any time
+                        expectResponseTermSeq = self._expectResponseTermSeq
+                        if expectResponseTermSeq and rxBuffer[-len(expectResponseTermSeq):] == expectResponseTermSeq:
                             line = ''.join(rxBuffer) 
                             rxBuffer = []
                             self._handleLineRead(line, checkForResponseTerm=False)                                                
-- 
2.43.0


From de3be415b2e1db4721185b2b6f7c6854eb04d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 22/47] fix: a failed write left the link waiting for a
 response, so later notifications were swallowed

---
 gsmmodem/serial_comms.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 53e8a94..a4207d2 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -141,14 +141,16 @@ class SerialComms(object):
                         self._expectResponseTermSeq = list(expectedResponseTermSeq) 
                     self._response = []
                     self._responseEvent = responseEvent
-                self.serial.write(data)
-                responseEvent.wait(timeout)
-                with self._rxLock:
-                    # The read thread may have completed the response up to this point
-                    responseComplete = responseEvent.is_set()
-                    response = self._response
-                    self._responseEvent = None
-                    self._expectResponseTermSeq = False
+                try:
+                    self.serial.write(data)
+                    responseEvent.wait(timeout)
+                finally:
+                    with self._rxLock:
+                        # The read thread may have completed the response up to this point
+                        responseComplete = responseEvent.is_set()
+                        response = self._response
+                        self._responseEvent = None
+                        self._expectResponseTermSeq = False
                 if responseComplete:
                     return response
                 else: # Response timed out
-- 
2.43.0


From d6fd3a8fa40cc936e78c066da793fe8a21fb1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 23/47] fix: only the first of several notifications read
 together was handled, and one containing the text RING was taken for an
 incoming call

---
 gsmmodem/modem.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e468f34..e48f5bb 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -127,6 +127,8 @@ class GsmModem(SerialComms):
     CMGR_REGEX_PDU = None
     # Used for parsing USSD event notifications
     CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d),"(.*?)",(\d+)', re.DOTALL)
+    # Used for finding the last line of a USSD event notification
+    CUSD_END_REGEX = re.compile(r'(^\+CUSD:\s*\d$)|(",\d+$)')
     # Used for parsing SMS status reports
     CDSI_REGEX = re.compile(r'\+CDSI:\s*"([^"]+)",(\d+)$')
     
@@ -859,33 +861,40 @@ class GsmModem(SerialComms):
         
         :param lines The lines that were read
         """
-        for line in lines:
-            if 'RING' in line:
+        # Several notifications may have been read together; each one removes its own line(s)
+        lines = list(lines)
+        while len(lines) > 0:
+            line = lines[0]
+            if line.startswith('RING') or line.startswith('+CRING'):
                 # Incoming call (or existing call is ringing)
                 self._handleIncomingCall(lines)
-                return
             elif line.startswith('+CMTI'):
                 # New SMS message indication
-                self._handleSmsReceived(line)
-                return
+                self._handleSmsReceived(lines.pop(0))
             elif line.startswith('+CUSD'):
                 # USSD notification - either a response or a MT-USSD ("push USSD") message
-                self._handleUssd(lines)
-                return
+                # - its text may span several lines, and it may be followed by an extra "release" message
+                lineCount = 1
+                while lineCount < len(lines) and (lines[lineCount].startswith('+CUSD') or not self.CUSD_END_REGEX.search(lines[lineCount-1])):
+                    lineCount += 1
+                ussdLines = lines[:lineCount]
+                del lines[:lineCount]
+                self._handleUssd(ussdLines)
             elif line.startswith('+CDSI'):
                 # SMS status report
-                self._handleSmsStatusReport(line)
-                return
+                self._handleSmsStatusReport(lines.pop(0))
             else:
                 # Check for call status updates            
+                lines.pop(0)
                 for updateRegex, handlerFunc in self._callStatusUpdates:
                     match = updateRegex.match(line)
                     if match:
                         # Handle the update
                         handlerFunc(match)
-                        return
-        # If this is reached, the notification wasn't handled
-        self.log.debug('Unhandled unsolicited modem notification: %s', lines)    
+                        break
+                else:
+                    # If this is reached, the notification wasn't handled
+                    self.log.debug('Unhandled unsolicited modem notification: %s', line)
     
     def _handleIncomingCall(self, lines):
         self.log.debug('Handling incoming call')
@@ -905,7 +914,7 @@ class GsmModem(SerialComms):
                     self._extendedIncomingCallIndication = False
         else:
             callType = None
-        if self._callingLineIdentification and len(lines) > 0:
+        if self._callingLineIdentification and len(lines) > 0 and lines[0].startswith('+CLIP'):
             clipLine = lines.pop(0)
             clipMatch = self.CLIP_REGEX.match(clipLine)
             if clipMatch:
-- 
2.43.0


From bf8dc43da1c170d8af7ca38ebfa1601a5f7f1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 24/47] fix: a new call could replace another active call in
 activeCalls, and an incoming call was attributed to an outgoing or already
 answered call with the same number

---
 gsmmodem/modem.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e48f5bb..b92874d 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -723,7 +723,7 @@ class GsmModem(SerialComms):
             # Don't wait for a call init update - base the call ID on the number of active calls
             self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
             self.log.debug("Not waiting for outgoing call init update message")
-            callId = len(self.activeCalls) + 1
+            callId = self._unusedCallId()
             callType = 0 # Assume voice
             call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
             self.activeCalls[callId] = call
@@ -931,16 +931,24 @@ class GsmModem(SerialComms):
             callerNumber = ton = callerName = None
         
         call = None
-        for activeCall in dictValuesIter(self.activeCalls):
-            if activeCall.number == callerNumber:
+        for activeCall in list(self.activeCalls.values()):
+            if isinstance(activeCall, IncomingCall) and activeCall.ringing and activeCall.number == callerNumber:
                 call = activeCall
                 call.ringCount += 1
+                break
         if call == None:
-            callId = len(self.activeCalls) + 1;
+            callId = self._unusedCallId()
             call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
             self.activeCalls[callId] = call
         self.incomingCallCallback(call)    
     
+    def _unusedCallId(self):
+        """ :return: The lowest call ID that is not used by an active call """
+        callId = 1
+        while callId in self.activeCalls:
+            callId += 1
+        return callId
+
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
         if self._dialEvent:
-- 
2.43.0


From 4ee2851b29935daf99ee8ec0de23f6413f23e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 25/47] fix: incoming calls other than voice calls raised
 KeyError instead of being announced

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b92874d..7319369 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1312,7 +1312,7 @@ class IncomingCall(Call):
         :param callType: Type of the incoming call (VOICE, FAX, DATA, etc)
         """
         if type(callType) == str:
-            callType = self.CALL_TYPE_MAP[callType] 
+            callType = self.CALL_TYPE_MAP.get(callType, callType)
         super(IncomingCall, self).__init__(gsmModem, callId, callType, number)        
         # Type attribute of the incoming call
         self.ton = ton
-- 
2.43.0


From 42e71a05889ba8a27214097afd1ea4d0f55d9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 26/47] fix: call progress reports: unknown call raised
 KeyError, call ID 0 never ended, the callback ran before the ended call was
 inactive, an ended incoming call could still be answered

---
 gsmmodem/modem.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 7319369..dee329b 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -969,15 +969,13 @@ class GsmModem(SerialComms):
             groups = regexMatch.groups()
             if len(groups) > 1:
                 callId = int(groups[0])
-                self.activeCalls[callId].answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
-                for call in dictValuesIter(self.activeCalls):
+                for call in list(self.activeCalls.values()):
                     if call.answered == False and type(call) == Call:
                         call.answered = True
                         return
-        else:
-            # Use supplied values
+        if callId in self.activeCalls:
             self.activeCalls[callId].answered = True
 
     def _handleCallEnded(self, regexMatch, callId=None, filterUnanswered=False):
@@ -987,15 +985,17 @@ class GsmModem(SerialComms):
                 callId = int(groups[0])
             else:
                 # Call ID not available for this notification - check for the first outgoing call that is active
-                for call in dictValuesIter(self.activeCalls):
+                for call in list(self.activeCalls.values()):
                     if type(call) == Call:
                         if not filterUnanswered or (filterUnanswered == True and call.answered == False):
                             callId = call.id
                             break
-        if callId and callId in self.activeCalls:
-            self.activeCalls[callId].answered = False
-            self.activeCalls[callId].active = False
-            del self.activeCalls[callId]
+        call = self.activeCalls.pop(callId, None)
+        if call != None:
+            call.active = False
+            if isinstance(call, IncomingCall):
+                call.ringing = False
+            call.answered = False
 
     def _handleCallRejected(self, regexMatch, callId=None):
         """ Handler for rejected (unanswered calls being ended)
-- 
2.43.0


From dd54c01745dd4c39b7d8747230bac5701ddee2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 27/47] fix: hanging up an ended call unlisted another call
 that uses its ID

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index dee329b..7cc7197 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1295,7 +1295,7 @@ class Call(object):
             self._gsmModem.write('ATH')
             self.answered = False
             self.active = False
-        if self.id in self._gsmModem.activeCalls:
+        if self._gsmModem.activeCalls.get(self.id) is self:
             del self._gsmModem.activeCalls[self.id]
 
 
-- 
2.43.0


From 4e98e634a7e8e837d2f96b6f96ed3c9f4dd1f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 28/47] fix: connecting to a Huawei modem changed the DTMF
 command of every other modem in the process

---
 gsmmodem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 7cc7197..65b3e7d 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -156,6 +156,7 @@ class GsmModem(SerialComms):
         self._mustPollCallStatus = False # whether or not the modem must be polled for outgoing call status updates
         self._pollCallStatusRegex = None # Regular expression used when polling outgoing call status
         self._writeWait = 0 # Time (in seconds to wait after writing a command (adjusted when 515 errors are detected)
+        self._dtmfCommandBase = '+VTS=' # DTMF command syntax of this modem
         self._smsTextMode = False # Storage variable for the smsTextMode property
         self._smscNumber = None # Default SMSC number
         self._smsRef = 0 # Sent SMS reference counter
@@ -258,7 +259,7 @@ class GsmModem(SerialComms):
                                        (re.compile(r'^\^CEND:(\d),(\d),(\d)+,(\d)+$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
-            Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
+            Call.DTMF_COMMAND_BASE = self._dtmfCommandBase = '^DTMF={cid},'
             Call.dtmfSupport = True
         elif callUpdateTableHint == 2:
             # Wavecom modem: +WIND notifications supported
@@ -1266,7 +1267,7 @@ class Call(object):
         :raise InvalidStateException: if the call has not been answered, or is ended while the command is still executing
         """        
         if self.answered:
-            dtmfCommandBase = self.DTMF_COMMAND_BASE.format(cid=self.id)
+            dtmfCommandBase = self._gsmModem._dtmfCommandBase.format(cid=self.id)
             toneLen = len(tones)
             if len(tones) > 1:
                 cmd = ('AT{0}{1};{0}' + ';{0}'.join(tones[1:])).format(dtmfCommandBase, tones[0])                
-- 
2.43.0


From fa9d4a7a69ee676af4b2b98f608e4839ef81f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 29/47] fix: a call reported answered or ended right after it
 was reported initiated was not updated

---
 gsmmodem/modem.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 65b3e7d..f02c308 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -149,6 +149,7 @@ class GsmModem(SerialComms):
         self._ussdResponse = None # gsmmodem.modem.Ussd
         self._smsStatusReportEvent = None # threading.Event
         self._dialEvent = None # threading.Event
+        self._dialRequest = None # (number, callStatusUpdateCallbackFunc) of the call being dialed
         self._dialResponse = None # gsmmodem.modem.Call
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
         self._waitForCallInitUpdate = True # Flag that controls if we should wait for a ATD "call initiated" message
@@ -714,6 +715,7 @@ class GsmModem(SerialComms):
         """
         if self._waitForCallInitUpdate:
             # Wait for the "call originated" notification message
+            self._dialRequest = (number, callStatusUpdateCallbackFunc)
             self._dialEvent = threading.Event()
             try:
                 self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
@@ -736,10 +738,7 @@ class GsmModem(SerialComms):
 
         if self._dialEvent.wait(timeout):
             self._dialEvent = None
-            callId, callType = self._dialResponse
-            call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-            self.activeCalls[callId] = call
-            return call
+            return self._dialResponse
         else: # Call establishing timed out
             self._dialEvent = None
             raise TimeoutException()
@@ -952,17 +951,19 @@ class GsmModem(SerialComms):
 
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
-        if self._dialEvent:
+        dialEvent = self._dialEvent
+        if dialEvent and not dialEvent.is_set():
             if regexMatch:
                 groups = regexMatch.groups()
-                # Set self._dialReponse to (callId, callType)
                 if len(groups) >= 2:
-                    self._dialResponse = (int(groups[0]) , int(groups[1]))
+                    callId, callType = int(groups[0]) , int(groups[1])
                 else:
-                    self._dialResponse = (int(groups[0]), 1) # assume call type: VOICE
-            else:
-                self._dialResponse = callId, callType
-            self._dialEvent.set()
+                    callId, callType = int(groups[0]), 1 # assume call type: VOICE
+            # List the call before anything else about it is handled; dial() might only return it later
+            number, callStatusUpdateCallbackFunc = self._dialRequest
+            self._dialResponse = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
+            self.activeCalls[callId] = self._dialResponse
+            dialEvent.set()
                 
     def _handleCallAnswered(self, regexMatch, callId=None):
         """ Handler for "outgoing call answered" event notification line """
-- 
2.43.0


From d46f4c2727f68d9834f7a03780134b384c7103d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 30/47] fix: polled call status was read from the first +CLCC
 line only, whichever call that was, and an error reply ended the polling

---
 gsmmodem/modem.py | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index f02c308..fbc6887 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -287,7 +287,7 @@ class GsmModem(SerialComms):
             # Unknown modem - we do not know what its call updates look like. Use polling instead
             self.log.info('Unknown/generic modem type - will use polling for call state updates')
             self._mustPollCallStatus = True
-            self._pollCallStatusRegex = re.compile('^\+CLCC:\s+(\d+),(\d),(\d),(\d),([^,]),"([^,]*)",(\d+)$')
+            self._pollCallStatusRegex = re.compile('^\+CLCC:\s+(\d+),(\d),(\d),(\d),([^,])(?:,"([^"]*)",(\d+).*)?$')
             self._waitForAtdResponse = True # Most modems return OK immediately after issuing ATD
 
         # General meta-information setup
@@ -1191,26 +1191,37 @@ class GsmModem(SerialComms):
             if expectedState == 0: # Only call initializing can timeout
                 timeLeft -= 0.5
             try:
-                clcc = self._pollCallStatusRegex.match(self.write('AT+CLCC')[0])
-            except TimeoutException as timeout:
+                response = self.write('AT+CLCC')
+            except TimeoutException:
                 # Can happend if the call was ended during our time.sleep() call
+                response = []
+            except CommandError:
+                # The modem did not report its calls this time; ask again
+                continue
+            # Find our call - there may be other calls as well
+            for line in response:
+                clcc = self._pollCallStatusRegex.match(line)
+                if clcc and int(clcc.group(2)) == 0: # Outgoing call
+                    lineCallId = int(clcc.group(1))
+                    stat = int(clcc.group(3))
+                    if expectedState == 0: # any call that is being dialed, or has just been answered
+                        if stat == 2 or stat == 3 or (stat == 0 and lineCallId not in self.activeCalls):
+                            break
+                    elif lineCallId == callId:
+                        break
+            else:
                 clcc = None
             if clcc:
-                direction = int(clcc.group(2))
-                if direction == 0: # Outgoing call
-                    # Determine call state
-                    stat = int(clcc.group(3))
-                    if expectedState == 0: # waiting for call initiated
-                        if stat == 2 or stat == 3: # Dialing or ringing ("alerting")                            
-                            callId = int(clcc.group(1))
-                            callType = int(clcc.group(4))
-                            self._handleCallInitiated(None, callId, callType) # if self_dialEvent is None, this does nothing
-                            expectedState = 1 # Now wait for call answer
-                    elif expectedState == 1: # waiting for call to be answered
-                        if stat == 0: # Call active
-                            callId = int(clcc.group(1))
-                            self._handleCallAnswered(None, callId)
-                            expectedState = 2 # Now wait for call hangup                            
+                # Determine call state
+                if expectedState == 0: # waiting for call initiated
+                    callId = lineCallId
+                    callType = int(clcc.group(4))
+                    self._handleCallInitiated(None, callId, callType) # if self_dialEvent is None, this does nothing
+                    expectedState = 1 # Now wait for call answer
+                elif expectedState == 1: # waiting for call to be answered
+                    if stat == 0: # Call active
+                        self._handleCallAnswered(None, callId)
+                        expectedState = 2 # Now wait for call hangup
             elif expectedState == 2 : # waiting for remote hangup
                 # Since there was no +CLCC response, the call is no longer active
                 callDone = True
-- 
2.43.0


From 3a0f4c0288619bc4717a3a2a3e6da4c1a1608fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:12 +0000
Subject: [PATCH 31/47] fix: hanging up raised KeyError if the modem reported
 the end of the call at the same time

---
 gsmmodem/modem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index fbc6887..1d31f13 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1309,7 +1309,8 @@ class Call(object):
             self.answered = False
             self.active = False
         if self._gsmModem.activeCalls.get(self.id) is self:
-            del self._gsmModem.activeCalls[self.id]
+            # It might have just been unlisted because the modem reported its end
+            self._gsmModem.activeCalls.pop(self.id, None)
 
 
 class IncomingCall(Call):
-- 
2.43.0


From 74239c5e7232ace01f8d3e1332d95fc7d37143e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:13 +0000
Subject: [PATCH 32/47] fix: USSD replies with quotes, without text or coding
 scheme, or followed by a release were lost or cut short; messages of a closed
 session stayed active

---
 gsmmodem/modem.py | 100 +++++++++++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 32 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1d31f13..f44a374 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -126,9 +126,9 @@ class GsmModem(SerialComms):
     # Used for parsing SMS message reads (PDU mode)
     CMGR_REGEX_PDU = None
     # Used for parsing USSD event notifications
-    CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d),"(.*?)",(\d+)', re.DOTALL)
-    # Used for finding the last line of a USSD event notification
-    CUSD_END_REGEX = re.compile(r'(^\+CUSD:\s*\d$)|(",\d+$)')
+    CUSD_REGEX = re.compile(r'^\+CUSD:\s*(\d),"(.*)",(\d+)$', re.DOTALL)
+    # Used for parsing USSD event notifications without text and/or data coding scheme
+    CUSD_SHORT_REGEX = re.compile(r'^\+CUSD:\s*(\d)(?:,"(.*)",?)?$', re.DOTALL)
     # Used for parsing SMS status reports
     CDSI_REGEX = re.compile(r'\+CDSI:\s*"([^"]+)",(\d+)$')
     
@@ -147,6 +147,7 @@ class GsmModem(SerialComms):
         self.sentSms = weakref.WeakValueDictionary()
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
+        self._ussdMessages = [] # USSD messages of the current session, if any (as weak references)
         self._smsStatusReportEvent = None # threading.Event
         self._dialEvent = None # threading.Event
         self._dialRequest = None # (number, callStatusUpdateCallbackFunc) of the call being dialed
@@ -874,9 +875,9 @@ class GsmModem(SerialComms):
             elif line.startswith('+CUSD'):
                 # USSD notification - either a response or a MT-USSD ("push USSD") message
                 # - its text may span several lines, and it may be followed by an extra "release" message
-                lineCount = 1
-                while lineCount < len(lines) and (lines[lineCount].startswith('+CUSD') or not self.CUSD_END_REGEX.search(lines[lineCount-1])):
-                    lineCount += 1
+                lineCount = 0
+                while lineCount < len(lines) and lines[lineCount].startswith('+CUSD'):
+                    lineCount += self._matchCusd(lines[lineCount:])[1]
                 ussdLines = lines[:lineCount]
                 del lines[:lineCount]
                 self._handleUssd(ussdLines)
@@ -1132,44 +1133,77 @@ class GsmModem(SerialComms):
     
     def _handleUssd(self, lines):
         """ Handler for USSD event notification line(s) """
-        if self._ussdSessionEvent:
-            # A sendUssd() call is waiting for this response - parse it
-            self._ussdResponse = self._parseCusdResponse(lines)
+        ussd = self._parseCusdResponse(lines)
+        ussdSessionEvent = self._ussdSessionEvent
+        # A "session release" message that follows the response must not replace it
+        if ussdSessionEvent and not ussdSessionEvent.is_set():
+            # A sendUssd() call is waiting for this response
+            self._ussdResponse = ussd
             # Notify waiting thread
-            self._ussdSessionEvent.set()
+            ussdSessionEvent.set()
     
+    def _matchCusd(self, lines):
+        """ Matches the +CUSD notification starting at the first of the specified lines
+        :return: the regular expression match (or None), and the number of lines it covers
+        :rtype: tuple
+        """
+        shortMatch = self.CUSD_SHORT_REGEX.match(lines[0])
+        if shortMatch and '"' not in (shortMatch.group(2) or ''):
+            return shortMatch, 1
+        # The message text may span several lines; it ends with the first line that completes it
+        for lineCount in range(1, len(lines) + 1):
+            if lineCount > 1 and lines[lineCount - 1].startswith('+CUSD'):
+                break
+            match = self.CUSD_REGEX.match('\r\n'.join(lines[:lineCount]))
+            if match:
+                return match, lineCount
+        return shortMatch, 1
+
     def _parseCusdResponse(self, lines):
         """ Parses one or more +CUSD notification lines (for USSD)
         :return: USSD response object
         :rtype: gsmmodem.modem.Ussd
         """
-        if len(lines) > 1:
-            # Issue #20: Some modem/network combinations use \r\n as in-message EOL indicators;
-            # - join lines to compensate for that (thanks to davidjb for the fix)
-            # Also, look for more than one +CUSD response because of certain modems' strange behaviour
-            cusdMatches = list(self.CUSD_REGEX.finditer('\r\n'.join(lines)))
-        else:
-            # Single standard +CUSD response
-            cusdMatches = [self.CUSD_REGEX.match(lines[0])]
+        # Issue #20: Some modem/network combinations use \r\n as in-message EOL indicators;
+        # - join lines to compensate for that (thanks to davidjb for the fix)
+        # Also, look for more than one +CUSD response because of certain modems' strange behaviour
+        cusdMatches = []
+        while len(lines) > 0:
+            cusdMatch, lineCount = self._matchCusd(lines)
+            if cusdMatch:
+                cusdMatches.append(cusdMatch)
+            lines = lines[lineCount:]
         message = None
-        sessionActive = True
+        sessionActive = len(cusdMatches) > 0
         if len(cusdMatches) > 1:
             self.log.debug('Multiple +CUSD responses received; filtering...')
-            # Some modems issue a non-standard "extra" +CUSD notification for releasing the session
-            for cusdMatch in cusdMatches:
-                if cusdMatch.group(1) == '2':
-                    # Set the session to inactive, but ignore the message
-                    self.log.debug('Ignoring "session release" message: %s', cusdMatch.group(2))
-                    sessionActive = False
-                else:
-                    # Not a "session release" message
+        for cusdMatch in cusdMatches:
+            if cusdMatch.group(1) == '2' and len(cusdMatches) > 1:
+                # Some modems issue a non-standard "extra" +CUSD notification for releasing the session
+                # Set the session to inactive, but ignore the message
+                self.log.debug('Ignoring "session release" message: %s', cusdMatch.group(2))
+                sessionActive = False
+            else:
+                # Not a "session release" message
+                if cusdMatch.group(2) != None:
                     message = cusdMatch.group(2)
-                    if sessionActive and cusdMatch.group(1) != '1':
-                        sessionActive = False
+                if cusdMatch.group(1) != '1':
+                    sessionActive = False
+        ussd = Ussd(self, sessionActive, message)
+        if sessionActive:
+            self._ussdMessages = [ussdRef for ussdRef in self._ussdMessages if ussdRef() != None]
+            self._ussdMessages.append(weakref.ref(ussd))
         else:
-            sessionActive = cusdMatches[0].group(1) == '1'
-            message = cusdMatches[0].group(2)
-        return Ussd(self, sessionActive, message)
+            self._ussdSessionEnded()
+        return ussd
+
+    def _ussdSessionEnded(self):
+        """ Marks all messages of the current USSD session as inactive """
+        ussdMessages, self._ussdMessages = self._ussdMessages, []
+        for ussdRef in ussdMessages:
+            ussd = ussdRef()
+            if ussd != None:
+                ussd.sessionActive = False
 
     def _placeHolderCallback(self, *args):
         """ Does nothing """
@@ -1383,3 +1417,5 @@ class Ussd(object):
         """
         if self.sessionActive:
             self._gsmModem.write('AT+CUSD=2')
+            self.sessionActive = False
+            self._gsmModem._ussdSessionEnded()
-- 
2.43.0


From 7cb999b2588297ee02e39505da2c11d546a8a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:04 +0000
Subject: [PATCH 33/47] fix: the first command of a "+CLAC: ..." response was
 reported with a leading blank

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index f44a374..312cf1d 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -512,7 +512,7 @@ class GsmModem(SerialComms):
                 commands = response[0]
                 if commands.startswith('+CLAC'):
                     commands = commands[6:] # remove the +CLAC: prefix before splitting
-                return commands.split(',')
+                return [cmd.strip() for cmd in commands.split(',')]
             elif len(response) > 2: # Multi-line response
                 return [cmd.strip() for cmd in response[:-1]]
             else:
-- 
2.43.0


From 1bd0f738e2665f3553ef03c89f5e010f6eab0c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:04 +0000
Subject: [PATCH 34/47] fix: extended +CREG responses were not understood when
 waiting for network coverage

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 312cf1d..e62cb00 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -604,7 +604,7 @@ class GsmModem(SerialComms):
         checkCreg = True
         while block[0]:
             if checkCreg:
-                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
+                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)(,.*)?$', self.write('AT+CREG?', parseError=False)) # example results: +CREG: 0,1 or +CREG: 2,1,"12AB","00C3"
                 if cregResult:
                     status = int(cregResult.group(2))
                     if status in (1, 5):
-- 
2.43.0


From 1acf358cbbae7de84868af2f9c36056a76fde6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:47 +0000
Subject: [PATCH 35/47] fix: connecting failed on modems rejecting an optional
 command (manufacturer, SMSC query, message storage or +WIND selection)

---
 gsmmodem/modem.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e62cb00..484e506 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -231,18 +231,22 @@ class GsmModem(SerialComms):
         if enableWind:
             try:
                 wind = lineStartingWith('+WIND:', self.write('AT+WIND?')) # Check current WIND value; example response: +WIND: 63
+                # Enable notifications for call setup, hangup, etc
+                if int(wind[7:]) != 50:
+                    self.write('AT+WIND=50')
             except CommandError:
                 # Modem does not support +WIND notifications. See if we can detect other known call update notifications
                 pass
             else:
-                # Enable notifications for call setup, hangup, etc
-                if int(wind[7:]) != 50:
-                    self.write('AT+WIND=50')
                 callUpdateTableHint = 2 # Wavecom
 
         # Attempt to identify modem type directly (if not already) - for outgoing call status updates
         if callUpdateTableHint == 0:
-            if self.manufacturer.lower() == 'huawei':
+            try:
+                manufacturer = self.manufacturer.lower()
+            except CommandError:
+                manufacturer = None # Modem does not identify its manufacturer
+            if manufacturer == 'huawei':
                 callUpdateTableHint = 1 # huawei
             else:
                 # See if this is a ZTE modem that has not yet been identified based on supported commands
@@ -301,14 +305,22 @@ class GsmModem(SerialComms):
             self.write('AT+CSCA="{0}"'.format(self._smscNumber)) # Set default SMSC number
             currentSmscNumber = self._smscNumber
         else:
-            currentSmscNumber = self.smsc
+            try:
+                currentSmscNumber = self.smsc
+            except CommandError:
+                currentSmscNumber = None # Modem does not support this query
         # Some modems delete the SMSC number when setting text-mode SMS parameters; preserve it if needed
         if currentSmscNumber != None:
             self._smscNumber = None # clear cache
         self.write('AT+CSMP=49,167,0,0', parseError=False) # Enable delivery reports
         # ...check SMSC again to ensure it did not change
-        if currentSmscNumber != None and self.smsc != currentSmscNumber:
-            self.smsc = currentSmscNumber
+        if currentSmscNumber != None:
+            try:
+                smscChanged = self.smsc != currentSmscNumber
+            except CommandError:
+                smscChanged = True # Unknown
+            if smscChanged:
+                self.smsc = currentSmscNumber
 
         # Set message storage, but first check what the modem supports - example response: +CPMS: (("SM","BM","SR"),("SM"))
         try:
@@ -337,7 +349,12 @@ class GsmModem(SerialComms):
                                 self._smsMemReadDelete = memType
                             cpmsItems[i] = memType
                             break
-                self.write('AT+CPMS={0}'.format(','.join(cpmsItems))) # Set message storage
+                try:
+                    self.write('AT+CPMS={0}'.format(','.join(cpmsItems))) # Set message storage
+                except CommandError:
+                    self._smsMemReadDelete = None
+                    self._smsReadSupported = False
+                    self.log.warning('SMS preferred message storage could not be set. SMS reading unavailable.')
             del cpmsSupport
             del cpmsLine
         
-- 
2.43.0


From 07577370a6bcd45c070abf4f29e89b7bbb874669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 36/47] fix: other commands could interleave with the
 submission of an SMS; a part without +CMGS response was ignored, and message
 data was repeated without a prompt

---
 gsmmodem/modem.py | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 484e506..12858d9 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -443,7 +443,7 @@ class GsmModem(SerialComms):
                     if cmErrorMatch:
                         errorType = cmErrorMatch.group(1)
                         errorCode = int(cmErrorMatch.group(2))
-                        if errorCode == 515 or errorCode == 14:
+                        if (errorCode == 515 or errorCode == 14) and writeTerm == '\r': # only commands can be repeated
                             # 515 means: "Please wait, init or command processing in progress."
                             # 14 means "SIM busy"
                             self._writeWait += 0.2 # Increase waiting period temporarily
@@ -661,23 +661,21 @@ class GsmModem(SerialComms):
         :raise CommandError: if an error occurs while attempting to send the message
         :raise TimeoutException: if the operation times out
         """
-        if self._smsTextMode:
-            self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
-            result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
-        else:
-            pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
-            for pdu in pdus:
-                self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
-                result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
-        if result == None:
-            raise CommandError('Modem did not respond with +CMGS response')
-        reference = int(result[7:])
-        self._smsRef = reference + 1
-        if self._smsRef > 255:
-            self._smsRef = 0
-        sms = SentSms(destination, text, reference)
-        # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
-        self.sentSms[reference] = sms
+        # Nothing else may be written to the modem while it is prompting for the message,
+        # or while a status report for it could be missed
+        with self._txLock:
+            if self._smsTextMode:
+                reference = self._submitSms('AT+CMGS="{0}"'.format(destination), text)
+            else:
+                pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
+                for pdu in pdus:
+                    reference = self._submitSms('AT+CMGS={0}'.format(pdu.tpduLength), str(pdu))
+            self._smsRef = reference + 1
+            if self._smsRef > 255:
+                self._smsRef = 0
+            sms = SentSms(destination, text, reference)
+            # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
+            self.sentSms[reference] = sms
         if waitForDeliveryReport:
             self._smsStatusReportEvent = threading.Event()
             if self._smsStatusReportEvent.wait(deliveryTimeout):
@@ -687,6 +685,18 @@ class GsmModem(SerialComms):
                 raise TimeoutException()
         return sms
 
+    def _submitSms(self, command, data):
+        """ Issues the specified +CMGS command, followed by the message data once the modem prompts for it
+
+        :return: the message reference number reported by the modem
+        :rtype: int
+        """
+        self.write(command, timeout=3, expectedResponseTermSeq='> ')
+        cmgsMatch = lineMatching(r'^\+CMGS:\s*(\d+)', self.write(data, timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
+        if cmgsMatch == None:
+            raise CommandError('Modem did not respond with +CMGS response')
+        return int(cmgsMatch.group(1))
+
     def sendUssd(self, ussdString, responseTimeout=15):
         """ Starts a USSD session by dialing the the specified USSD string, or \
         sends the specified string in the existing USSD session (if any)
-- 
2.43.0


From 5c506eff9eef3ea342525ad3cc6398f8eb54b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 37/47] fix: waiting for a delivery report missed early reports
 and returned for reports of other messages

---
 gsmmodem/modem.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 12858d9..464fb12 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -148,7 +148,8 @@ class GsmModem(SerialComms):
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
         self._ussdMessages = [] # USSD messages of the current session, if any (as weak references)
-        self._smsStatusReportEvent = None # threading.Event
+        self._smsStatusReportEvents = {} # threading.Event of each sendSms() call waiting for its status report, by reference
+        self._smsStatusReportLock = threading.Lock()
         self._dialEvent = None # threading.Event
         self._dialRequest = None # (number, callStatusUpdateCallbackFunc) of the call being dialed
         self._dialResponse = None # gsmmodem.modem.Call
@@ -676,13 +677,18 @@ class GsmModem(SerialComms):
             sms = SentSms(destination, text, reference)
             # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
             self.sentSms[reference] = sms
+            if waitForDeliveryReport:
+                # The status report may arrive at any time from now on
+                statusReportEvent = threading.Event()
+                with self._smsStatusReportLock:
+                    self._smsStatusReportEvents[reference] = statusReportEvent
         if waitForDeliveryReport:
-            self._smsStatusReportEvent = threading.Event()
-            if self._smsStatusReportEvent.wait(deliveryTimeout):
-                self._smsStatusReportEvent = None
-            else: # Response timed out
-                self._smsStatusReportEvent = None
-                raise TimeoutException()
+            statusReportEvent.wait(deliveryTimeout)
+            with self._smsStatusReportLock:
+                if self._smsStatusReportEvents.get(reference) is statusReportEvent:
+                    del self._smsStatusReportEvents[reference]
+                if not statusReportEvent.is_set(): # Response timed out
+                    raise TimeoutException()
         return sms
 
     def _submitSms(self, command, data):
@@ -1056,12 +1062,15 @@ class GsmModem(SerialComms):
             report = self.readStoredSms(msgIndex, msgMemory)
             self.deleteStoredSms(msgIndex)
             # Update sent SMS status if possible            
-            if report.reference in self.sentSms:                
-                self.sentSms[report.reference].report = report
-            if self._smsStatusReportEvent:                
-                # A sendSms() call is waiting for this response - notify waiting thread
-                self._smsStatusReportEvent.set()
-            else:
+            sms = self.sentSms.get(report.reference)
+            if sms != None:
+                sms.report = report
+            with self._smsStatusReportLock:
+                statusReportEvent = self._smsStatusReportEvents.get(report.reference)
+                if statusReportEvent:
+                    # A sendSms() call is waiting for this response - notify waiting thread
+                    statusReportEvent.set()
+            if not statusReportEvent:
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
     
-- 
2.43.0


From 3bd764cdb079f57bc833cf8d18ce73cc888399cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 38/47] fix: received messages could be read or deleted in the
 wrong memory, and an unreadable one stopped the notifications that followed

---
 gsmmodem/modem.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 464fb12..726da67 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1048,9 +1048,9 @@ class GsmModem(SerialComms):
         if cmtiMatch:
             msgMemory = cmtiMatch.group(1)
             msgIndex = cmtiMatch.group(2)
-            sms = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
-            self.smsReceivedCallback(sms)
+            sms = self._takeStoredSms(msgIndex, msgMemory)
+            if sms != None:
+                self.smsReceivedCallback(sms)
     
     def _handleSmsStatusReport(self, notificationLine):
         """ Handler for SMS status reports """
@@ -1059,8 +1059,9 @@ class GsmModem(SerialComms):
         if cdsiMatch:
             msgMemory = cdsiMatch.group(1)
             msgIndex = cdsiMatch.group(2)
-            report = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            report = self._takeStoredSms(msgIndex, msgMemory)
+            if report == None:
+                return
             # Update sent SMS status if possible            
             sms = self.sentSms.get(report.reference)
             if sms != None:
@@ -1074,6 +1075,22 @@ class GsmModem(SerialComms):
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
     
+    def _takeStoredSms(self, index, memory):
+        """ Reads and deletes a newly-arrived message
+
+        :return: The SMS message, or None if it could not be read
+        """
+        try:
+            sms = self.readStoredSms(index, memory)
+        except (CommandError, TimeoutException, EncodingError, ValueError) as e:
+            self.log.warning('Unable to read SMS message at index %s of memory %s: %s', index, memory, e)
+            return None
+        try:
+            self.deleteStoredSms(index, memory)
+        except (CommandError, TimeoutException) as e:
+            self.log.warning('Unable to delete SMS message at index %s of memory %s: %s', index, memory, e)
+        return sms
+
     def readStoredSms(self, index, memory=None):
         """ Reads and returns the SMS message at the specified index
         
@@ -1088,8 +1105,9 @@ class GsmModem(SerialComms):
         :rtype: subclass of gsmmodem.modem.Sms (either ReceivedSms or StatusReport)
         """
         # Switch to the correct memory type if required
-        self._setSmsMemory(readDelete=memory)
-        msgData = self.write('AT+CMGR={0}'.format(index))
+        with self._txLock: # the memory must not be switched in between
+            self._setSmsMemory(readDelete=memory)
+            msgData = self.write('AT+CMGR={0}'.format(index))
         # Parse meta information
         if self._smsTextMode:
             cmgrMatch = self.CMGR_SM_DELIVER_REGEX_TEXT.match(msgData[0])
@@ -1138,8 +1156,9 @@ class GsmModem(SerialComms):
         
         :raise CommandError: if unable to delete the stored message
         """
-        self._setSmsMemory(readDelete=memory)
-        self.write('AT+CMGD={0},0'.format(index))
+        with self._txLock: # the memory must not be switched in between
+            self._setSmsMemory(readDelete=memory)
+            self.write('AT+CMGD={0},0'.format(index))
     
     def deleteMultipleStoredSms(self, delFlag=4, memory=None):
         """ Deletes all SMS messages that have the specified read status.
@@ -1162,8 +1181,9 @@ class GsmModem(SerialComms):
         :raise CommandError: if unable to delete the stored messages
         """
         if 0 < delFlag <= 4:
-            self._setSmsMemory(readDelete=memory)
-            self.write('AT+CMGD=1,{0}'.format(delFlag))
+            with self._txLock: # the memory must not be switched in between
+                self._setSmsMemory(readDelete=memory)
+                self.write('AT+CMGD=1,{0}'.format(delFlag))
         else:
             raise ValueError('"delFlag" must be in range [1,4]')
     
-- 
2.43.0


From ba76711b5bc3f1027ed50b80b1c9899d315672b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 39/47] fix: text-mode messages without sender number, or whose
 sender is listed by a name with a comma, could not be read

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 726da67..d77f7db 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -569,7 +569,7 @@ class GsmModem(SerialComms):
         """ Compiles regular expression used for parsing SMS messages based on current mode """
         if self._smsTextMode:
             if self.CMGR_SM_DELIVER_REGEX_TEXT == None:
-                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
+                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]*)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
                 self.CMGR_SM_REPORT_REGEXT_TEXT = re.compile(r'^\+CMGR: ([^,]*),\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
         elif self.CMGR_REGEX_PDU == None:
             self.CMGR_REGEX_PDU = re.compile(r'^\+CMGR: (\d*),"{0,1}([^"]*)"{0,1},(\d+)$')
@@ -816,7 +816,7 @@ class GsmModem(SerialComms):
         messages = []
         delMessages = set()
         if self._smsTextMode:
-            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
+            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]*)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
             for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
                 if status == val:
                     statusStr = key
-- 
2.43.0


From 7c422708b86c2403b05012bd465fd6cc1e9b94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:56 +0000
Subject: [PATCH 40/47] fix: listing stored messages dropped empty messages,
 mixed up messages with the undecodable or outgoing ones next to them, and
 deleted messages that were not returned

---
 gsmmodem/modem.py | 139 +++++++++++++++++++++++++---------------------
 1 file changed, 76 insertions(+), 63 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index d77f7db..2c2942f 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -812,73 +812,86 @@ class GsmModem(SerialComms):
         :return: A list of Sms objects containing the messages read
         :rtype: list
         """
-        self._setSmsMemory(readDelete=memory)
-        messages = []
-        delMessages = set()
-        if self._smsTextMode:
-            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]*)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
-            for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
-                if status == val:
-                    statusStr = key
-                    break
+        with self._txLock: # the memory must not be switched in between
+            self._setSmsMemory(readDelete=memory)
+            if self._smsTextMode:
+                for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
+                    if status == val:
+                        statusStr = key
+                        break
+                else:
+                    raise ValueError('Invalid status value: {0}'.format(status))
+                entries = self._parseTextModeList(self.write('AT+CMGL="{0}"'.format(statusStr)))
             else:
-                raise ValueError('Invalid status value: {0}'.format(status))
-            result = self.write('AT+CMGL="{0}"'.format(statusStr))
-            msgLines = []
-            msgIndex = msgStatus = number = msgTime = None
-            for line in result:
-                cmglMatch = cmglRegex.match(line)                
-                if cmglMatch:
-                    # New message; save old one if applicable
-                    if msgIndex != None and len(msgLines) > 0:
-                        msgText = '\n'.join(msgLines)
-                        msgLines = []
-                        messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-                        delMessages.add(int(msgIndex))
-                    msgIndex, msgStatus, number, msgTime = cmglMatch.groups()
-                    msgLines = []
+                entries = self._parsePduModeList(self.write('AT+CMGL={0}'.format(status)))
+            messages = [sms for msgIndex, sms in entries if sms != None]
+            if delete and len(messages) > 0:
+                if status == Sms.STATUS_ALL and len(messages) == len(entries):
+                    # Delete all messages
+                    self.deleteMultipleStoredSms()
                 else:
-                    if line != 'OK':
-                        msgLines.append(line)
-            if msgIndex != None and len(msgLines) > 0:
-                msgText = '\n'.join(msgLines)
-                msgLines = []
-                messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-                delMessages.add(int(msgIndex))
-        else:
-            cmglRegex = re.compile(r'^\+CMGL:\s*(\d+),\s*(\d+),.*$')
-            readPdu = False
-            result = self.write('AT+CMGL={0}'.format(status))
-            for line in result:
-                if not readPdu:
-                    cmglMatch = cmglRegex.match(line)
-                    if cmglMatch:
-                        msgIndex = int(cmglMatch.group(1))
-                        msgStat = int(cmglMatch.group(2))
-                        readPdu = True
+                    for msgIndex, sms in entries:
+                        if sms != None:
+                            self.deleteStoredSms(msgIndex)
+        return messages
+
+    def _parseTextModeList(self, lines):
+        """ Parses a text-mode +CMGL response
+
+        :return: List of (index, message) tuples; the message is None if the entry could not be decoded
+        :rtype: list
+        """
+        headerRegex = re.compile(r'^\+CMGL:\s*(\d+),\s*"')
+        cmglRegex = re.compile(r'^\+CMGL:\s*(\d+),\s*"([^"]+)","([^"]*)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
+        rawEntries = [] # [index, header match, text lines]
+        for line in lines[:-1]:
+            headerMatch = headerRegex.match(line)
+            if headerMatch:
+                rawEntries.append((int(headerMatch.group(1)), cmglRegex.match(line), []))
+            elif len(rawEntries) > 0:
+                rawEntries[-1][2].append(line)
+        entries = []
+        for msgIndex, cmglMatch, msgLines in rawEntries:
+            sms = None
+            if cmglMatch:
+                msgStatus, number, msgTime = cmglMatch.groups()[1:]
+                try:
+                    sms = ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), '\n'.join(msgLines))
+                except (KeyError, ValueError):
+                    self.log.debug('Discarding invalid message in +CMGL response: %s', cmglMatch.group(0))
+            entries.append((msgIndex, sms))
+        return entries
+
+    def _parsePduModeList(self, lines):
+        """ Parses a PDU-mode +CMGL response
+
+        :return: List of (index, message) tuples; the message is None if the entry could not be decoded
+        :rtype: list
+        """
+        cmglRegex = re.compile(r'^\+CMGL:\s*(\d+),\s*(\d+),.*$')
+        entries = []
+        readPdu = False
+        for line in lines[:-1]:
+            cmglMatch = cmglRegex.match(line)
+            if cmglMatch:
+                msgIndex = int(cmglMatch.group(1))
+                msgStat = int(cmglMatch.group(2))
+                entries.append((msgIndex, None))
+                readPdu = True
+            elif readPdu:
+                try:
+                    smsDict = decodeSmsPdu(line)
+                except EncodingError:
+                    self.log.debug('Discarding line from +CMGL response: %s', line)
                 else:
-                    try:
-                        smsDict = decodeSmsPdu(line)
-                    except EncodingError:
-                        self.log.debug('Discarding line from +CMGL response: %s', line)
+                    readPdu = False
+                    if smsDict['type'] == 'SMS-DELIVER':
+                        entries[-1] = (msgIndex, ReceivedSms(self, msgStat, smsDict['number'], smsDict['time'], smsDict['text'], smsDict['smsc']))
+                    elif smsDict['type'] == 'SMS-STATUS-REPORT':
+                        entries[-1] = (msgIndex, StatusReport(self, msgStat, smsDict['reference'], smsDict['number'], smsDict['time'], smsDict['discharge'], smsDict['status']))
                     else:
-                        if smsDict['type'] == 'SMS-DELIVER':
-                            sms = ReceivedSms(self, int(msgStat), smsDict['number'], smsDict['time'], smsDict['text'], smsDict['smsc'])
-                        elif smsDict['type'] == 'SMS-STATUS-REPORT':
-                            sms = StatusReport(self, int(msgStat), smsDict['reference'], smsDict['number'], smsDict['time'], smsDict['discharge'], smsDict['status'])
-                        else:
-                            raise CommandError('Invalid PDU type for readStoredSms(): {0}'.format(smsDict['type']))
-                        messages.append(sms)
-                        delMessages.add(msgIndex)
-                        readPdu = False
-        if delete:
-            if status == Sms.STATUS_ALL:
-                # Delete all messages
-                self.deleteMultipleStoredSms()
-            else:
-                for msgIndex in delMessages:
-                    self.deleteStoredSms(msgIndex)
-        return messages
+                        self.log.debug('Discarding %s from +CMGL response', smsDict['type'])
+        return entries
 
     def _handleModemNotification(self, lines):
         """ Handler for unsolicited notifications from the modem
-- 
2.43.0


From fda18fb4ff032057cd3c48b43774f877dd2146ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:24 +0000
Subject: [PATCH 41/47] fix: only message data is not repeated if the modem is
 busy

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 2c2942f..8790e35 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -444,7 +444,7 @@ class GsmModem(SerialComms):
                     if cmErrorMatch:
                         errorType = cmErrorMatch.group(1)
                         errorCode = int(cmErrorMatch.group(2))
-                        if (errorCode == 515 or errorCode == 14) and writeTerm == '\r': # only commands can be repeated
+                        if (errorCode == 515 or errorCode == 14) and writeTerm != chr(26): # message data cannot be repeated without a new prompt
                             # 515 means: "Please wait, init or command processing in progress."
                             # 14 means "SIM busy"
                             self._writeWait += 0.2 # Increase waiting period temporarily
-- 
2.43.0


From ba1b1f7bbf2dda6a4b42e9a90c3b6cc10897af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 42/47] fix: changing the SMS mode while messages are sent or
 read used the wrong format

---
 gsmmodem/modem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 8790e35..33a4b73 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -546,11 +546,12 @@ class GsmModem(SerialComms):
     @smsTextMode.setter
     def smsTextMode(self, textMode):
         """ Set to True for the modem to use text mode for SMS, or False for it to use PDU mode """
-        if textMode != self._smsTextMode:
-            if self.alive:
-                self.write('AT+CMGF={0}'.format(1 if textMode else 0))
-            self._smsTextMode = textMode
-            self._compileSmsRegexes()
+        with self._txLock: # messages must not be sent or read while the mode changes
+            if textMode != self._smsTextMode:
+                if self.alive:
+                    self.write('AT+CMGF={0}'.format(1 if textMode else 0))
+                self._smsTextMode = textMode
+                self._compileSmsRegexes()
     
     def _setSmsMemory(self, readDelete=None, write=None):
         """ Set the current SMS memory to use for read/delete/write operations """
@@ -1120,9 +1121,10 @@ class GsmModem(SerialComms):
         # Switch to the correct memory type if required
         with self._txLock: # the memory must not be switched in between
             self._setSmsMemory(readDelete=memory)
+            textMode = self._smsTextMode # the mode that the message is read in
             msgData = self.write('AT+CMGR={0}'.format(index))
         # Parse meta information
-        if self._smsTextMode:
+        if textMode:
             cmgrMatch = self.CMGR_SM_DELIVER_REGEX_TEXT.match(msgData[0])
             if cmgrMatch:
                 msgStatus, number, msgTime = cmgrMatch.groups()
-- 
2.43.0


From 162cb36f000dea09df1fd311b1a02f26b0eba0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 43/47] fix: a notification cut off by the end of a connection
 was delivered as part of the next connection

---
 gsmmodem/serial_comms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index a4207d2..359d5a3 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -47,6 +47,8 @@ class SerialComms(object):
     def connect(self):
         """ Connects to the device and starts the read thread """                
         self.serial = serial.Serial(port=self.port, baudrate=self.baudrate, timeout=self.timeout)
+        # A notification that was cut off by the end of a previous connection is not part of this one
+        self._notification = []
         # Start read thread
         self.alive = True 
         self.rxThread = threading.Thread(target=self._readLoop)
-- 
2.43.0


From 5c093e276606a399c52cc18ceff67b828e1fc1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 44/47] fix: a notification that arrived while a message was
 typed replaced the prompt of the terminal for good

---
 tools/gsmtermlib/terminal.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 61c1132..d3f7f52 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -227,8 +227,6 @@ class GsmTerm(RawTerm):
     def _handleModemNotification(self, lines):
         # Clear any input prompt
         self._removeInputPrompt()
-        if self._typingSms:
-            self.PROMPT = self._color(self.COLOR_CYAN, lines[0])
         if lines[-1] == 'ERROR':
             print(self._color(self.COLOR_RED, '\n'.join(lines)))
         else:
-- 
2.43.0


From 83469b4c8a39a6266ec4804a862ea6bb393b3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 45/47] fix: the text of a cancelled message stayed on the
 input line of the terminal

---
 tools/gsmtermlib/terminal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index d3f7f52..661f38b 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -299,6 +299,8 @@ class GsmTerm(RawTerm):
             self._typingSms = False
             self.inputBuffer = []
             self.cursorPos = 0
+            sys.stdout.write('\n')
+            self._refreshInputPrompt()
 
     def _exit(self):
         """ Shuts down the terminal (and app) """
-- 
2.43.0


From 128f3ff9df550505a7e8c7d96f06e1ad5d442951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 46/47] fix: completing a command typed after blanks left
 characters of the old line on the screen

---
 tools/gsmtermlib/terminal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 661f38b..c5b0185 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -549,9 +549,10 @@ class GsmTerm(RawTerm):
                     self.__printCommandSyntax(prefix)
                 else:
                     # Complete only possible command
+                    clearLen = len(self.inputBuffer)
                     self.inputBuffer = list(matches[0])
                     self.cursorPos = len(self.inputBuffer)
-                    self._refreshInputPrompt(len(self.inputBuffer))
+                    self._refreshInputPrompt(clearLen)
                 return
             else:
                 commonPrefix = self.completion.longestCommonPrefix(prefix)
-- 
2.43.0


From 79ddcedb5192af0860b9a8074b3fe15c06d7dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 47/47] fix: sendsms failed on Python 3, which has no
 raw_input()

---
 tools/sendsms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/sendsms.py b/tools/sendsms.py
index 31c42bd..1aa4c3a 100755
--- a/tools/sendsms.py
+++ b/tools/sendsms.py
@@ -12,6 +12,9 @@ import sys, logging
 from gsmmodem.modem import GsmModem, SentSms
 from gsmmodem.exceptions import TimeoutException, PinRequiredError, IncorrectPinError
 
+if sys.version_info[0] == 2:
+    input = raw_input
+
 def parseArgs():
     """ Argument parser for Python 2.7 and above """
     from argparse import ArgumentParser
@@ -66,7 +69,7 @@ def main():
         sys.exit(1)
     else:
         print('\nPlease type your message and press enter to send it:')
-        text = raw_input('> ')
+        text = input('> ')
         if args.deliver:
             print ('\nSending SMS and waiting for delivery report...')
         else:
-- 
2.43.0

