From 714b9b631b98945849c264b84c4abde41a950725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 01/51] fix: emit the concatenation header of 8-bit multipart
 messages

pack_8bits_to_8bit counted the UDH in the length but left it out of the
user data, and the header was built as UCS2 units.
---
 messaging/sms/submit.py |  4 ++++
 messaging/utils.py      | 10 ++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index e426f13..beebe75 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -313,6 +313,10 @@ class SmsSubmit(SmsBase):
                 udh = (chr(udh_len) + chr(mid) + chr(data_len) +
                        chr(sms_ref) + chr(total_parts) + chr(i))
                 padding = " "
+            elif limit == consts.EIGHTBIT_SIZE:
+                udh = (chr(udh_len) + chr(mid) + chr(data_len) +
+                       chr(sms_ref) + chr(total_parts) + chr(i))
+                padding = ""
             else:
                 udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
                        unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
diff --git a/messaging/utils.py b/messaging/utils.py
index 1456d79..da039e3 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -145,13 +145,11 @@ def pack_8bits_to_7bits(message, udh=None):
 
 
 def pack_8bits_to_8bit(message, udh=None):
-    text = message
-    if udh is not None:
-        text = udh + text
+    if udh is None:
+        udh = ''
 
-    mlen = len(text)
-    message = chr(mlen) + message
-    return encode_str(message)
+    mlen = len(udh) + len(message)
+    return encode_str(chr(mlen)) + encode_str(udh) + encode_str(message)
 
 
 def pack_8bits_to_ucs2(message, udh=None):
-- 
2.43.0


From 342b2f7a1e7d76c41e7e98988bde07d738a7c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 02/51] fix: do not remember an automatically chosen alphabet
 between to_pdu calls

The first call fixed the alphabet of every later text of the object: a
GSM text followed by an UCS2 one raised UnicodeError.
---
 messaging/sms/submit.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index beebe75..3c51848 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -203,13 +203,16 @@ class SmsSubmit(SmsBase):
 
     def _get_msg_pdu(self):
         # Data coding scheme
-        if self.fmt is None:
+        # an alphabet that was not chosen by the user depends on the text
+        # being encoded, and must not be remembered for the next one
+        fmt = self.fmt
+        if fmt is None:
             if is_gsm_text(self.text):
-                self.fmt = 0x00
+                fmt = 0x00
             else:
-                self.fmt = 0x08
+                fmt = 0x08
 
-        self.dcs = self.fmt
+        self.dcs = fmt
 
         if self.klass is not None:
             if self.klass == 0:
@@ -242,24 +245,24 @@ class SmsSubmit(SmsBase):
         # UDL + UD
         message_pdu = ""
 
-        if self.fmt == 0x00:
+        if fmt == 0x00:
             self.text_gsm = self.text.encode("gsm0338")
             if len(self.text_gsm) <= consts.SEVENBIT_SIZE:
                 message_pdu = [pack_8bits_to_7bits(self.text_gsm)]
             else:
-                message_pdu = self._split_sms_message(self.text_gsm)
-        elif self.fmt == 0x04:
+                message_pdu = self._split_sms_message(self.text_gsm, fmt)
+        elif fmt == 0x04:
             if len(self.text) <= consts.EIGHTBIT_SIZE:
                 message_pdu = [pack_8bits_to_8bit(self.text)]
             else:
-                message_pdu = self._split_sms_message(self.text)
-        elif self.fmt == 0x08:
+                message_pdu = self._split_sms_message(self.text, fmt)
+        elif fmt == 0x08:
             if len(self.text) <= consts.UCS2_SIZE:
                 message_pdu = [pack_8bits_to_ucs2(self.text)]
             else:
-                message_pdu = self._split_sms_message(self.text)
+                message_pdu = self._split_sms_message(self.text, fmt)
         else:
-            raise ValueError("Unknown data coding scheme: %d" % self.fmt)
+            raise ValueError("Unknown data coding scheme: %d" % fmt)
 
         ret = []
         for msg in message_pdu:
@@ -267,20 +270,20 @@ class SmsSubmit(SmsBase):
 
         return ret
 
-    def _split_sms_message(self, text):
-        if self.fmt == 0x00:
+    def _split_sms_message(self, text, fmt):
+        if fmt == 0x00:
             len_without_udh = consts.SEVENBIT_MP_SIZE
             limit = consts.SEVENBIT_SIZE
             packing_func = pack_8bits_to_7bits
             total_len = len(self.text_gsm)
 
-        elif self.fmt == 0x04:
+        elif fmt == 0x04:
             len_without_udh = consts.EIGHTBIT_MP_SIZE
             limit = consts.EIGHTBIT_SIZE
             packing_func = pack_8bits_to_8bit
             total_len = len(self.text)
 
-        elif self.fmt == 0x08:
+        elif fmt == 0x08:
             len_without_udh = consts.UCS2_MP_SIZE
             limit = consts.UCS2_SIZE
             packing_func = pack_8bits_to_ucs2
-- 
2.43.0


From 91f137ac99c925820f6038ac8b076f647788b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 03/51] fix: honour the sign of negative timezone offsets

'-0300' was turned into an offset of -21 hours.
---
 messaging/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index da039e3..0aebb75 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -30,7 +30,7 @@ class FixedOffset(tzinfo):
         if sign == 1:
             td = timedelta(minutes=minutes)
         elif sign == -1:
-            td = timedelta(days=-1, minutes=minutes)
+            td = -timedelta(minutes=minutes)
 
         return cls(td, name)
 
@@ -254,7 +254,7 @@ def datetime_to_absolute_validity(d, tzname='Unknown'):
     # compute offset
     offset = FixedOffset.from_timezone(n[-1], tzname).offset
     # one unit is 15 minutes
-    s = "%02d" % int(floor(offset.seconds / (60 * 15)))
+    s = "%02d" % int(floor(abs(offset).seconds / (60 * 15)))
 
     if offset.days < 0:
         # set MSB to 1
-- 
2.43.0


From ab02ac75fdebd84f66b401361b76bf1506790c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 04/51] fix: report 8-bit port addresses as such

---
 messaging/sms/udh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index eecfa23..fb9f71a 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -68,7 +68,7 @@ class UserDataHeader(object):
             elif iei == 0x04:
                 # process App port addressing 8bit
                 dest_port, orig_port = ie_data
-                udh.ports = PortAddress(dest_port, orig_port, False)
+                udh.ports = PortAddress(dest_port, orig_port, True)
 
             elif iei == 0x05:
                 # process App port addressing 16bit
-- 
2.43.0


From 8463ff34f236eedbd6eae457fc837a7b1373cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 05/51] fix: do not append a spurious '@' to seven character
 alphanumeric senders

The address length is the number of useful semi-octets; the padding bits
after them were decoded as one more septet.
---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5a9ba6b..5a70b7c 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -99,6 +99,8 @@ class SmsDeliver(SmsBase):
             raise ValueError("Cannot decode a SmsSubmitReport message yet")
 
         sndlen = data.pop(0)
+        # number of septets that fit in the useful semi-octets
+        sndseptets = sndlen * 4 // 7
         if sndlen % 2:
             sndlen += 1
         sndlen = int(sndlen / 2.0)
@@ -106,7 +108,7 @@ class SmsDeliver(SmsBase):
         sndtype = (data.pop(0) >> 4) & 0x07
         if sndtype == consts.ALPHANUMERIC:
             # coded according to 3GPP TS 23.038 [9] GSM 7-bit default alphabet
-            sender = unpack_msg2(data[:sndlen]).decode("gsm0338")
+            sender = unpack_msg2(data[:sndlen])[:sndseptets].decode("gsm0338")
         else:
             # Extract phone number of sender
             sender = swap_number(encode_bytes(data[:sndlen]))
-- 
2.43.0


From 437346335fc76c83bdee733095612736b322ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 06/51] fix: forget the state of the previous PDU when a new
 one is assigned

---
 messaging/sms/deliver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5a70b7c..37d21e1 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -65,6 +65,10 @@ class SmsDeliver(SmsBase):
         # XXX: Should we keep the original PDU or the modified one?
         self._pdu = pdu
 
+        # Forget what a previously assigned PDU may have left behind
+        self.udh = self.sr = self.type = self.date = None
+        self.pid = self.dcs = None
+
         data = to_array(self._pdu)
 
         # Service centre address
-- 
2.43.0


From 076efddfad00502ca2332a2a098abb188143d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 07/51] fix: read the header length of a WAP push as an uintvar

---
 messaging/sms/wap.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/messaging/sms/wap.py b/messaging/sms/wap.py
index 46611ab..a15fa3e 100644
--- a/messaging/sms/wap.py
+++ b/messaging/sms/wap.py
@@ -3,6 +3,7 @@
 from array import array
 
 from messaging.mms.mms_pdu import MMSDecoder
+from messaging.mms.wsp_pdu import Decoder
 
 
 def is_a_wap_push_notification(s):
@@ -20,11 +21,12 @@ def is_a_wap_push_notification(s):
 def extract_push_notification(s):
     data = array("B", s)
 
-    wap_push, offset = data[1:3]
-    assert wap_push == 0x06
+    assert data[1] == 0x06
 
-    offset += 3
-    data = data[offset:]
+    # the length of the headers is an uintvar
+    data_iter = iter(data[2:])
+    headers_len = Decoder.decode_uint_var(data_iter)
+    data = array("B", list(data_iter)[headers_len:])
 
     # XXX: Not all WAP pushes are MMS
     return MMSDecoder().decode_data(data)
-- 
2.43.0


From 12f80321c3ab231b09967a011de0c959954e4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 08/51] fix: encode multi-octet integers most significant octet
 first

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7aa1eae..3f7e1a0 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1528,7 +1528,7 @@ class Encoder:
         # Encode the Multi-octect-integer
         while longInt > 0:
             byte = 0xff & longInt
-            encoded_long_int.append(byte)
+            encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
 
         # Now add the SHort-length value, and make sure it's ok
-- 
2.43.0


From 0568dd1cbf44a3a0fed5a21347b72de74293f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 09/51] fix: encode content types with parameters as a flat
 sequence of bytes

The value length counted the nested lists instead of the octets in them.
---
 messaging/mms/wsp_pdu.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 3f7e1a0..bac4e0b 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1613,7 +1613,7 @@ class Encoder:
         else:
             val = Encoder.encode_text_string(content_type)
 
-        return [val]
+        return val
 
     @staticmethod
     def encode_parameter(parameter_name, parameter_value, version='1.2'):
@@ -1952,8 +1952,11 @@ class Encoder:
         # Encode the actual content type
         encoded_media_type = Encoder.encode_media_type(media_type)
         # Encode all parameters
-        encoded_parameters = [Encoder.encode_parameter(name, parameters[name])
-                                    for name in parameters]
+        encoded_parameters = []
+        for name in parameters:
+            encoded_parameters.extend(
+                    Encoder.encode_parameter(name, parameters[name]))
+
 
         value_length = len(encoded_media_type) + len(encoded_parameters)
         encoded_value_length = Encoder.encode_value_length(value_length)
-- 
2.43.0


From f64cecbd99aeccf0b5be4b2afae50c4d675c4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 10/51] fix: encode the data parts that are not connected to a
 page

They were counted in the number of entries of the body, but left out.
---
 messaging/mms/mms_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ed44c46..1455694 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -777,6 +777,8 @@ class MMSEncoder(wsp_pdu.Encoder):
                 if part_tuple is not None:
                     parts.append(part_tuple[0])
 
+        parts.extend(self._mms_message._data_parts)
+
         for part in parts:
             name, val_type = part.headers['Content-Type']
             part_content_type = self.encode_content_type_value(name, val_type)
-- 
2.43.0


From 6c59af0bfcf727010a1ad7329567fee624904b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 11/51] fix: do not modify the headers of a message while
 encoding it

Encoding the same message twice gave different results.
---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 1455694..acd5aa6 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -627,7 +627,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # Create an array of 8-bit values
         message_header = array.array('B')
 
-        headers_to_encode = self._mms_message.headers
+        headers_to_encode = self._mms_message.headers.copy()
 
         # If the user added any of these to the message manually
         # (X- prefix) use those instead
-- 
2.43.0


From e3ee615bb0c1a974d4704688e0210f42b8f3cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 12/51] fix: recognise Bcc as a destination address

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index acd5aa6..8fbd513 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -662,7 +662,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # what she is doing
         if headers_to_encode['Message-Type'] == 'm-send-req':
             found_dest_address = False
-            for address_type in ('To', 'Cc', 'Bc'):
+            for address_type in ('To', 'Cc', 'Bcc'):
                 if address_type in headers_to_encode:
                     found_dest_address = True
                     break
-- 
2.43.0


From f7f38e562abbcacc695aee98e5cbf6ba8c325ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 13/51] fix: do not add the text of a slide again before its
 audio clip

---
 messaging/mms/message.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 6cff8a0..f5a91aa 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -201,7 +201,6 @@ class MMSMessage:
                     audio_node.setAttribute('begin', str(begin))
                     audio_node.setAttribute('end', str(end))
 
-                par_node.appendChild(text_node)
                 par_node.appendChild(audio_node)
 
             body_node.appendChild(par_node)
-- 
2.43.0


From 3b26e6a3a20e43cf702480ac6135b59827eed04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 14/51] fix: return the data parts of messages with pages

---
 messaging/mms/message.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index f5a91aa..99ac2eb 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -97,9 +97,11 @@ class MMSMessage:
         including data parts that were added to slides in this message"""
         parts = []
         if len(self._pages):
-            parts.append(self.smil())
-            for slide in self._mms_message._pages:
-                parts.extend(slide.data_parts())
+            smil_part = DataPart()
+            smil_part.set_data(self.smil(), 'application/smil')
+            parts.append(smil_part)
+            for page in self._pages:
+                parts.extend([part for part, begin, end in page.data_parts])
 
         parts.extend(self._data_parts)
         return parts
-- 
2.43.0


From 74540dcab96b570aecdce95bf2e90e221b86001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 15/51] fix: do not truncate 8-bit unsigned integers to 4 bits

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index bac4e0b..89d1dc7 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -331,7 +331,7 @@ class Decoder:
         :rtype: int
         """
         # Make the byte unsigned
-        return byte_iter.next() & 0xf
+        return byte_iter.next() & 0xff
 
     @staticmethod
     def decode_uint_var(byte_iter):
-- 
2.43.0


From 86faff895fce12e9854254dd0fb80aa7b09058a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 16/51] fix: decode empty encoded string values

The terminator of an empty Text-string was taken for a value length.
---
 messaging/mms/mms_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 8fbd513..8de05ba 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -313,6 +313,10 @@ class MMSDecoder(wsp_pdu.Decoder):
         try:
             # First try "Value-length Char-set Text-string"
             value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
+            if value_length == 0:
+                # a value can not be empty, this is an empty Text-string
+                return ''
+
             # TODO: add proper support for charsets...
             try:
                 charset = wsp_pdu.Decoder.decode_well_known_charset(byte_iter)
-- 
2.43.0


From 664800d4ceef4d038d492812f178800b6d1914d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 17/51] fix: consume the value of unknown message types

---
 messaging/mms/mms_pdu.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 8de05ba..9b37e58 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -446,13 +446,8 @@ class MMSDecoder(wsp_pdu.Decoder):
             0x86: 'm-delivery-ind',
         }
 
-        byte = byte_iter.preview()
-        if byte in message_types:
-            byte_iter.next()
-            return message_types[byte]
-
-        byte_iter.reset_preview()
-        return '<unknown>'
+        byte = byte_iter.next()
+        return message_types.get(byte, '<unknown>')
 
     @staticmethod
     def decode_priority_value(byte_iter):
-- 
2.43.0


From 24f854e44493b83810399659ce95e6e1207e8bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 18/51] fix: use the right type for unknown status values

---
 messaging/mms/mms_pdu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 9b37e58..7f33b03 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -530,7 +530,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         byte = byte_iter.preview()
         byte_iter.next()
         # Return error unspecified if it couldn't be decoded
-        return response_status_values.get(byte, 0x81)
+        return response_status_values.get(byte, 'Error-unspecified')
 
     @staticmethod
     def decode_status_value(byte_iter):
@@ -556,7 +556,7 @@ class MMSDecoder(wsp_pdu.Decoder):
 
         byte = byte_iter.next()
         # Return an unrecognised state if it couldn't be decoded
-        return status_values.get(byte, 0x84)
+        return status_values.get(byte, 'Unrecognised')
 
     @staticmethod
     def decode_expiry_value(byte_iter):
@@ -994,4 +994,4 @@ class MMSEncoder(wsp_pdu.Encoder):
         }
 
         # Return an unrecognised state if it couldn't be decoded
-        return [status_values.get(status_value, 'Unrecognised')]
+        return [status_values.get(status_value, 0x84)]
-- 
2.43.0


From 5472fc3abbdab283e039af764fff71652baec1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 19/51] fix: decode versions without a minor number

---
 messaging/mms/wsp_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 89d1dc7..2df74b7 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1138,6 +1138,10 @@ class Decoder:
             byteValue = Decoder.decode_short_integer(byte_iter)
             major = (byteValue & 0x70) >> 4
             minor = byteValue & 0x0f
+            if minor == 15:
+                # there is no minor version
+                return '%d' % major
+
             return '%d.%d' % (major, minor)
         except DecodeError:
             return Decoder.decode_text_string(byte_iter)
-- 
2.43.0


From bc388234ac1175be6b6bede82d5a4ac4cf742d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 20/51] fix: Any-charset is octet 128

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 2df74b7..e8ecba3 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1289,7 +1289,7 @@ class Decoder:
         # Look for the Any-charset value
         byte = byte_iter.preview()
         byte_iter.reset_preview()
-        if byte == 127:
+        if byte == 128:
             byte_iter.next()
             decoded_charset = '*'
         else:
-- 
2.43.0


From 64a31ea959380078f10263d21b8c9c227dc7e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 21/51] fix: decode No-value

---
 messaging/mms/wsp_pdu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index e8ecba3..85f71ff 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1190,8 +1190,9 @@ class Decoder:
         :return: No-value, which is 0x00
         :rtype: int
         """
-        byte_iter, local_iter = byte_iter.next()
-        if local_iter.next() != 0x00:
+        byte = byte_iter.preview()
+        if byte != 0x00:
+            byte_iter.reset_preview()
             raise DecodeError('Expected No-value')
 
         byte_iter.next()
-- 
2.43.0


From d157492ef3197abef094fc0512836b01cd23aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 22/51] fix: show media without an ending time until the end of
 the slide

A begin time alone produced an end time of 0.
---
 messaging/mms/message.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 99ac2eb..ec53298 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -162,7 +162,7 @@ class MMSMessage:
                 image_node.setAttribute('src', src)
                 image_node.setAttribute('region', 'Image')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
                     image_node.setAttribute('begin', str(begin))
@@ -177,7 +177,7 @@ class MMSMessage:
                 text_node.setAttribute('src', src)
                 text_node.setAttribute('region', 'Text')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
                     text_node.setAttribute('begin', str(begin))
@@ -197,7 +197,7 @@ class MMSMessage:
                 audio_node = smil_doc.createElement('audio')
                 audio_node.setAttribute('src', src)
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
                     audio_node.setAttribute('begin', str(begin))
-- 
2.43.0


From 392ca3293ccda064674bf9282180a4da09ad9672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 23/51] fix: the length of a data part is the length of its
 data

It was read again from the file after the data had been loaded.
---
 messaging/mms/message.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index ec53298..4055d0c 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -535,10 +535,7 @@ class DataPart(object):
 
     def __len__(self):
         """Provides the length of the data encapsulated by this object"""
-        if self._filename is not None:
-            return int(os.stat(self._filename)[6])
-        else:
-            return len(self.data)
+        return len(self.data)
 
     @property
     def data(self):
-- 
2.43.0


From f0f5ddefbb3421437cda53626a2e7cadb767f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 24/51] fix: decode the headers of body parts as WSP headers

Their field names were looked up in the table of MMS headers first, which
gave another meaning to Content-Location.
---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 7f33b03..033344d 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -194,7 +194,7 @@ class MMSDecoder(wsp_pdu.Decoder):
             # have been read
             while True:
                 try:
-                    hdr, value = self.decode_header(ct_iter)
+                    hdr, value = wsp_pdu.Decoder.decode_header(ct_iter)
                     headers[hdr] = value
                 except StopIteration:
                     break
-- 
2.43.0


From 72911b058a3423ff7b5dffb6d9f6e9fb90d11877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 25/51] fix: reset the preview when a field name is not a short
 integer

---
 messaging/mms/mms_pdu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 033344d..8f1bb7c 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -266,6 +266,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         # Get the MMS-field-name
         mms_field_name = ''
         preview = byte_iter.preview()
+        byte_iter.reset_preview()
         byte = wsp_pdu.Decoder.decode_short_integer_from_byte(preview)
 
         if byte in mms_field_names:
-- 
2.43.0


From c0649186b83153ed1644bd5f362be01f3585e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 26/51] fix: decode relative delivery times below 128 seconds

Delta-seconds-value is an Integer-value.
---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 8f1bb7c..99a9c60 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -362,7 +362,7 @@ class MMSDecoder(wsp_pdu.Decoder):
     def decode_delivery_time_value(byte_iter):
         value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
         token = byte_iter.next()
-        value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
+        value = wsp_pdu.Decoder.decode_integer_value(byte_iter)
         if token == 128:
             token_type = 'absolute'
         elif token == 129:
-- 
2.43.0


From 02a01fe8faccc0983a4e7d1d922894c7343dc5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 27/51] fix: encode and decode untyped parameters that are not
 tokens as quoted strings

Only the text up to the first separator was decoded, and what followed
it was taken for another parameter.
---
 messaging/mms/wsp_pdu.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 85f71ff..4a85853 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1169,10 +1169,10 @@ class Decoder:
         :rtype: str
         """
         try:
-            return Decoder.decode_token_text(byte_iter)
+            return Decoder.decode_quoted_string(byte_iter)
         except DecodeError:
             try:
-                return Decoder.decode_quoted_string(byte_iter)
+                return Decoder.decode_token_text(byte_iter)
             except DecodeError:
                 # Ok, so it's a "No-value"
                 return ''
@@ -1686,7 +1686,11 @@ class Encoder:
             try:
                 value = Encoder.encode_integer_value(parameter_value)
             except EncodeError:
-                value = Encoder.encode_text_string(parameter_value)
+                try:
+                    value = Encoder.encode_token_text(parameter_value)
+                except EncodeError:
+                    # Quoted-string
+                    value = [34] + Encoder.encode_text_string(parameter_value)
 
             encoded_parameter.extend(value)
 
@@ -1704,7 +1708,7 @@ class Encoder:
         :return: The encoded token string, as a list of byte values
         :rtype: list
         """
-        separators = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
+        separators = (11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
                       91, 92, 93, 123, 125)
         # Sanity check
         for char in separators:
-- 
2.43.0


From ec56f6beacfed0b378b794d7458073d12d917d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 28/51] fix: refuse characters that do not fit in an 8-bit
 message

They were written with more than two digits, which corrupted the PDU.
---
 messaging/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/utils.py b/messaging/utils.py
index 0aebb75..9d5fd75 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -148,6 +148,9 @@ def pack_8bits_to_8bit(message, udh=None):
     if udh is None:
         udh = ''
 
+    if [c for c in message if ord(c) > 0xFF]:
+        raise ValueError("Text can not be encoded with 8 bits per character")
+
     mlen = len(udh) + len(message)
     return encode_str(chr(mlen)) + encode_str(udh) + encode_str(message)
 
-- 
2.43.0


From b4eb99ee74d1ecf07687d36aef2a336d170c362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 29/51] fix: send UCS2 messages of 216 to 223 parts

The part count was put in a surrogate code point, which unichr() refuses.
---
 messaging/sms/submit.py | 16 +++-------------
 messaging/utils.py      | 15 ++++++---------
 2 files changed, 9 insertions(+), 22 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 3c51848..21fa481 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -312,19 +312,9 @@ class SmsSubmit(SmsBase):
         for i, msg in enumerate(msgs):
             i += 1
             total_parts = len(msgs)
-            if limit == consts.SEVENBIT_SIZE:
-                udh = (chr(udh_len) + chr(mid) + chr(data_len) +
-                       chr(sms_ref) + chr(total_parts) + chr(i))
-                padding = " "
-            elif limit == consts.EIGHTBIT_SIZE:
-                udh = (chr(udh_len) + chr(mid) + chr(data_len) +
-                       chr(sms_ref) + chr(total_parts) + chr(i))
-                padding = ""
-            else:
-                udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
-                       unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
-                       unichr(int("%04x" % ((total_parts << 8) | i), 16)))
-                padding = ""
+            udh = (chr(udh_len) + chr(mid) + chr(data_len) +
+                   chr(sms_ref) + chr(total_parts) + chr(i))
+            padding = " " if limit == consts.SEVENBIT_SIZE else ""
 
             pdu_msgs.append(packing_func(padding + msg, udh))
 
diff --git a/messaging/utils.py b/messaging/utils.py
index 9d5fd75..7cfd595 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -157,18 +157,15 @@ def pack_8bits_to_8bit(message, udh=None):
 
 def pack_8bits_to_ucs2(message, udh=None):
     # XXX: This does not control the size respect to UDH
-    text = message
-    nmesg = ''
-
-    if udh is not None:
-        text = udh + text
+    if udh is None:
+        udh = ''
 
-    for n in text:
+    nmesg = ''
+    for n in message:
         nmesg += chr(ord(n) >> 8) + chr(ord(n) & 0xFF)
 
-    mlen = len(text) * 2
-    message = chr(mlen) + nmesg
-    return encode_str(message)
+    mlen = len(udh) + len(nmesg)
+    return encode_str(chr(mlen)) + encode_str(udh) + encode_str(nmesg)
 
 
 def unpack_msg(pdu):
-- 
2.43.0


From 6457b4acc5c11c8e43647ad86b11179efc79c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 30/51] fix: refuse numbers followed by a newline

---
 messaging/sms/submit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 21fa481..5ae6a75 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -14,7 +14,7 @@ from messaging.sms.base import SmsBase
 from messaging.sms.gsm0338 import is_gsm_text
 from messaging.sms.pdu import Pdu
 
-VALID_NUMBER = re.compile("^\+?\d{3,20}$")
+VALID_NUMBER = re.compile("^\+?\d{3,20}\\Z")
 
 
 class SmsSubmit(SmsBase):
-- 
2.43.0


From ef269bf0fcf8b3e6c8fa06b2bce5d4e586dab951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 31/51] fix: honour the alphabet of message waiting indications

---
 messaging/sms/deliver.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 37d21e1..9f90dfd 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -126,7 +126,14 @@ class SmsDeliver(SmsBase):
         self.pid = data.pop(0)
         # 1 byte TP-DCS (Data Coding Scheme)
         self.dcs = data.pop(0)
-        if self.dcs & (0x04 | 0x08) == 0:
+        group = self.dcs >> 4
+        if group in (0x0c, 0x0d):
+            # message waiting indication, GSM 7 bit default alphabet
+            self.fmt = 0x00
+        elif group == 0x0e:
+            # message waiting indication, UCS2
+            self.fmt = 0x08
+        elif self.dcs & (0x04 | 0x08) == 0:
             self.fmt = 0x00
         elif self.dcs & 0x04:
             self.fmt = 0x04
-- 
2.43.0


From f795cd6ef63f0f049ed27a290463b422a428cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 32/51] fix: do not append what follows the user data to the
 text

---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 9f90dfd..5ab9613 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -169,7 +169,9 @@ class SmsDeliver(SmsBase):
     def _process_message(self, data):
         # Now get message body
         msgl = data.pop(0)
-        msg = encode_bytes(data[:msgl])
+        # what follows is not part of the message
+        data = data[:msgl]
+        msg = encode_bytes(data)
         # check for header
         headlen = ud_len = 0
 
-- 
2.43.0


From 5af5552d736805ca73e48bde3d1dbccc2749498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 33/51] fix: refuse PDUs with characters that are not
 hexadecimal digits

---
 messaging/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/utils.py b/messaging/utils.py
index 7cfd595..1cb1b42 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -52,6 +52,10 @@ def bytes_to_str(b):
 
 
 def to_array(pdu):
+    # int() tolerates blanks, signs and non ASCII digits
+    if [c for c in pdu if c not in "0123456789abcdefABCDEF"]:
+        raise ValueError("Not an hexadecimal string: %r" % pdu)
+
     return array('B', [int(pdu[i:i + 2], 16) for i in range(0, len(pdu), 2)])
 
 
-- 
2.43.0


From 6a5de4bad7dfa99e126bf52523c7db3ada0f743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:36 +0000
Subject: [PATCH 34/51] fix: refuse texts that can not be encoded as
 Text-string

A NUL ends the string early, so that the rest is decoded as something
else, and characters above 255 are not octets.
---
 messaging/mms/wsp_pdu.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 4a85853..2280079 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1466,11 +1466,19 @@ class Encoder:
         :param string: The text string to encode
         :type string: str
 
+        :raise EncodeError: The string contains a character that does not
+                            fit in an octet, or the End-of-string character
+
         :return: the null-terminated, binary-encoded version of the
                      specified Text-string, as a list of byte values
         :rtype: list
         """
         encoded_string = [ord(c) for c in string]
+        for char in encoded_string:
+            if char == 0x00 or char > 0xff:
+                raise EncodeError('Char %d in text string; cannot encode '
+                                  'as Text-string' % char)
+
         encoded_string.append(0x00)
         return encoded_string
 
-- 
2.43.0


From 652e500b4e1f79824f71e7b1ec1a994553fb9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 35/51] fix: refuse texts that are not tokens in
 encode_token_text

Empty texts, control characters and characters above 126 are not tokens;
the decoder ends the token at the control character. Values of untyped
parameters are encoded as quoted strings in that case.
---
 messaging/mms/wsp_pdu.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 2280079..79c7b25 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1719,10 +1719,13 @@ class Encoder:
         separators = (11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
                       91, 92, 93, 123, 125)
         # Sanity check
-        for char in separators:
-            if chr(char) in text:
+        if not text:
+            raise EncodeError('A Token-text can not be empty')
+
+        for char in text:
+            if not 31 < ord(char) < 127 or ord(char) in separators:
                 raise EncodeError('Char "%s" in text string; cannot '
-                                  'encode as Token-text' % chr(char))
+                                  'encode as Token-text' % repr(char))
 
         return Encoder.encode_text_string(text)
 
-- 
2.43.0


From 3c7db2f15165e0c8b66d282d8cf2fb427fe70137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 36/51] fix: refuse negative integers, accept long ones

Negative integers were encoded as some other value, and integers of type
long refused although they fit in a Long-integer.
---
 messaging/mms/wsp_pdu.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 79c7b25..ff05648 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1443,9 +1443,14 @@ class Encoder:
         used octet is set to '1' to indicate more is to follow; the last used
         octet's "continue bit" is set to 0.
 
+        :raise EncodeError: The integer is negative
+
         :return: the binary-encoded uint_var, as a list of byte values
         :rtype: list
         """
+        if uint < 0:
+            raise EncodeError('Cannot encode a negative integer: %d' % uint)
+
         uint_var = [uint & 0x7f]
         # Since this is the lowest entry, we do not set the continue bit to 1
         uint = uint >> 7
@@ -1525,7 +1530,8 @@ class Encoder:
             Long-integer = Short-length Multi-octet-integer
             Short-length = <Any octet 0-30>
 
-        :raise EncodeError: <integer> is not of type "int"
+        :raise EncodeError: <integer> is not of type "int", is negative or
+                            does not fit in 30 octets
 
         :param integer: The integer value to encode
         :type integer: int
@@ -1533,9 +1539,12 @@ class Encoder:
         :return: The encoded Long-integer, as a sequence of byte values
         :rtype: list
         """
-        if not isinstance(integer, int):
+        if not isinstance(integer, (int, long)):
             raise EncodeError('<integer> must be of type "int"')
 
+        if integer < 0:
+            raise EncodeError('Cannot encode a negative integer: %d' % integer)
+
         encoded_long_int = []
         longInt = integer
         # Encode the Multi-octect-integer
@@ -1748,7 +1757,7 @@ class Encoder:
         :return: The encoded integer value, as a list of byte values
         :rtype: list
         """
-        if not isinstance(integer, int):
+        if not isinstance(integer, (int, long)):
             raise EncodeError('<integer> must be of type "int"')
 
         # First try and see if it's a short-integer
-- 
2.43.0


From 05b9c08a4448ed217cce4b55bf68ac48db9e6328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 37/51] fix: encode versions like 1.05 as text

They were encoded as 1.5.
---
 messaging/mms/wsp_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index ff05648..a203643 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1597,6 +1597,8 @@ class Encoder:
                     minor_version = int(version.split('.')[1])
                     if minor_version < 0 or minor_version > 14:
                         raise ValueError('Minor version must be in range 0-14')
+                    if version != '%d.%d' % (major_version, minor_version):
+                        raise ValueError('Version would not be preserved')
                 else:
                     minor_version = 15
 
-- 
2.43.0


From 20d4e0798c0f42163665513a8e651fbb85611e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 38/51] fix: precede text strings that start with an octet
 above 126 by a Quote

It was missing, so that the decoder took the string for something else
or dropped its first character.
---
 messaging/mms/wsp_pdu.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index a203643..8b1078f 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1478,6 +1478,16 @@ class Encoder:
                      specified Text-string, as a list of byte values
         :rtype: list
         """
+        encoded_string = Encoder._encode_text(string)
+        # A Quote must precede octets 127 and above
+        if encoded_string[0] > 126:
+            encoded_string.insert(0, 127)
+
+        return encoded_string
+
+    @staticmethod
+    def _encode_text(string):
+        """ Encodes *TEXT End-of-string, see :func:`encode_text_string` """
         encoded_string = [ord(c) for c in string]
         for char in encoded_string:
             if char == 0x00 or char > 0xff:
@@ -1709,7 +1719,7 @@ class Encoder:
                     value = Encoder.encode_token_text(parameter_value)
                 except EncodeError:
                     # Quoted-string
-                    value = [34] + Encoder.encode_text_string(parameter_value)
+                    value = [34] + Encoder._encode_text(parameter_value)
 
             encoded_parameter.extend(value)
 
@@ -1962,7 +1972,7 @@ class Encoder:
             raise EncodeError('Invalid Extension-media: TEXT starts with '
                               'invalid character: %s' % ord(char))
 
-        return Encoder.encode_text_string(media_value)
+        return Encoder._encode_text(media_value)
 
     @staticmethod
     def encode_content_general_form(media_type, parameters):
-- 
2.43.0


From 969813cf0718040f8d972fc3223897364ac76404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 39/51] fix: refuse empty media types

They raised IndexError, or were encoded as octets that do not decode
when there are parameters.
---
 messaging/mms/wsp_pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 8b1078f..2c9b5de 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1645,7 +1645,7 @@ class Encoder:
             val = Encoder.encode_short_integer(
                     well_known_content_types.index(content_type))
         else:
-            val = Encoder.encode_text_string(content_type)
+            val = Encoder.encode_extension_media(content_type)
 
         return val
 
@@ -1967,6 +1967,9 @@ class Encoder:
             except:
                 raise EncodeError('Invalid Extension-media: Cannot convert '
                                   'value to text string')
+        if not media_value:
+            raise EncodeError('Invalid Extension-media: empty text string')
+
         char = media_value[0]
         if ord(char) < 32 or ord(char) == 127:
             raise EncodeError('Invalid Extension-media: TEXT starts with '
-- 
2.43.0


From e6f5a3ae0ade05cf4f92e3d9bab7b08281c93aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:12 +0000
Subject: [PATCH 40/51] fix: do not modify the iterator if a media type or
 parameter is unknown

As documented: the assigned number was consumed, so that the next decoder
started at the following octet.
---
 messaging/mms/wsp_pdu.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 2c9b5de..94946a1 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -688,6 +688,18 @@ class Decoder:
 
         return integer
 
+    @staticmethod
+    def _preview(decode, byte_iter):
+        """
+        Decodes the value pointed by ``byte_iter`` with ``decode``, but
+        does not modify the iterator
+        """
+        byte_iter.reset_preview()
+        try:
+            return decode(PreviewIterator(iter(byte_iter.preview, None)))
+        finally:
+            byte_iter.reset_preview()
+
     @staticmethod
     def decode_content_type_value(byte_iter):
         """
@@ -753,17 +765,17 @@ class Decoder:
         :rtype: str
         """
         try:
-            value = Decoder.decode_integer_value(byte_iter)
+            value = Decoder._preview(Decoder.decode_integer_value, byte_iter)
         except DecodeError:
             raise DecodeError('Invalid well-known media: could not read '
                               'integer value representing it')
 
-        try:
-            return well_known_content_types[value]
-        except IndexError:
+        if value >= len(well_known_content_types):
             raise DecodeError('Invalid well-known media: could not '
                               'find content type in table of assigned values')
 
+        return well_known_content_types[Decoder.decode_integer_value(byte_iter)]
+
     @staticmethod
     def decode_media_type(byte_iter):
         """
@@ -797,23 +809,26 @@ class Decoder:
 
             Constrained-media = Constrained-encoding
 
-        :raise DecodeError: Invalid constrained media sequence
+        :raise DecodeError: Invalid constrained media sequence; ``byte_iter``
+                            is not modified if this happens.
 
         :return: The decoded media type
         :rtype: str
         """
         try:
-            media_value = Decoder.decode_constrained_encoding(byte_iter)
+            media_value = Decoder._preview(Decoder.decode_constrained_encoding,
+                                           byte_iter)
         except DecodeError, msg:
             raise DecodeError('Invalid Constrained-media: %s' % msg)
 
         if isinstance(media_value, int):
             try:
-                return well_known_content_types[media_value]
+                media_value = well_known_content_types[media_value]
             except IndexError:
                 raise DecodeError('Invalid constrained media: could not '
                                   'find well-known content type')
 
+        Decoder.decode_constrained_encoding(byte_iter)
         return media_value
 
     @staticmethod
@@ -982,7 +997,8 @@ class Decoder:
         """
         parameter_name = expected_value = ''
         try:
-            parameter_value = Decoder.decode_integer_value(byte_iter)
+            parameter_value = Decoder._preview(Decoder.decode_integer_value,
+                                               byte_iter)
         except DecodeError:
             raise DecodeError('Invalid well-known parameter token: could '
                               'not read integer value representing it')
@@ -996,6 +1012,7 @@ class Decoder:
                               'not find in table of assigned numbers '
                               '(encoding version %s)' % version)
 
+        Decoder.decode_integer_value(byte_iter)
         return parameter_name, expected_value
 
     #TODO: somehow this should be more dynamic; we need to know what type
-- 
2.43.0


From 5555dfded87e818dd5c2c76073aca04ed91a71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:21 +0000
Subject: [PATCH 41/51] fix: decode Accept values in general form

Media parameters other than Q were left unread, the end of the data
right after the value raised StopIteration, and a failure consumed the
length.
---
 messaging/mms/wsp_pdu.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 94946a1..47532ac 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1239,25 +1239,11 @@ class Decoder:
         try:
             accept_value = Decoder.decode_constrained_media(byte_iter)
         except DecodeError:
-            # ...now try Accept-general-form
-            value_length = Decoder.decode_value_length(byte_iter)
-            try:
-                media = Decoder.decode_well_known_media(byte_iter)
-            except DecodeError:
-                media = Decoder.decode_extension_media(byte_iter)
-
-            # Check for the Q-Token (to see if there are Accept-parameters)
-            if byte_iter.preview() == 128:
-                byte_iter.next()
-                q_value = Decoder.decode_q_value(byte_iter)
-                try:
-                    accept_extension = Decoder.decode_parameter(byte_iter)
-                except DecodeError:
-                    # Just set an empty iterable
-                    accept_extension = []
-
-            byte_iter.reset_preview()
-            accept_value = media
+            # ...now try Accept-general-form; it is a Content-general-form,
+            # the Q-token being the parameter "Q"
+            general_form = Decoder.decode_content_general_form
+            Decoder._preview(general_form, byte_iter)
+            accept_value, params = general_form(byte_iter)
 
         return accept_value
 
-- 
2.43.0


From 19bf23afb89efd16a5102c8321d43a88df435107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:28 +0000
Subject: [PATCH 42/51] fix: do not modify the iterator if a Pragma value is
 invalid

---
 messaging/mms/wsp_pdu.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 47532ac..9b533eb 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1273,11 +1273,17 @@ class Decoder:
             name, value = 'Cache-control', 'No-cache'
         else:
             byte_iter.reset_preview()
-            value_length = Decoder.decode_value_length(byte_iter)
-            name, value = Decoder.decode_parameter(byte_iter)
+            Decoder._preview(Decoder._decode_pragma_parameter, byte_iter)
+            name, value = Decoder._decode_pragma_parameter(byte_iter)
 
         return name, value
 
+    @staticmethod
+    def _decode_pragma_parameter(byte_iter):
+        """ Value-length Parameter, see :func:`decode_pragma_value` """
+        value_length = Decoder.decode_value_length(byte_iter)
+        return Decoder.decode_parameter(byte_iter)
+
     @staticmethod
     def decode_well_known_charset(byte_iter):
         """
-- 
2.43.0


From 0009f3e584b5d6c42196cfc3c8a48e0318243c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 43/51] fix: decode parameters with a Text-value or without
 value

A typed parameter whose value is encoded as text lost its name, and
No-value was decoded as the integer 0 or left unread.
---
 messaging/mms/wsp_pdu.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 9b533eb..0975ddd 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -913,8 +913,9 @@ class Decoder:
         typed_value = ''
         try:
             typed_value = getattr(Decoder, 'decode_%s' % value_type)(byte_iter)
-        except DecodeError, msg:
-            raise DecodeError('Could not decode Typed-parameter: %s' % msg)
+        except DecodeError:
+            # Typed-value = Compact-value | Text-value
+            typed_value = Decoder.decode_text_value(byte_iter)
         except:
             debug('A fatal error occurred, probably due to an '
                   'unimplemented decoding operation')
@@ -959,6 +960,13 @@ class Decoder:
         :return: The decoded untyped-value
         :rtype: int or str
         """
+        try:
+            # not an integer without octets
+            Decoder.decode_no_value(byte_iter)
+            return ''
+        except DecodeError:
+            pass
+
         try:
             return Decoder.decode_integer_value(byte_iter)
         except DecodeError:
@@ -1192,6 +1200,7 @@ class Decoder:
                 return Decoder.decode_token_text(byte_iter)
             except DecodeError:
                 # Ok, so it's a "No-value"
+                Decoder.decode_no_value(byte_iter)
                 return ''
 
     @staticmethod
-- 
2.43.0


From ad51d3c49514d1ecfd198548110d5a7017d99713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 44/51] fix: encode 0 as a Long-integer of one octet

---
 messaging/mms/wsp_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 0975ddd..47bad39 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1575,8 +1575,8 @@ class Encoder:
 
         encoded_long_int = []
         longInt = integer
-        # Encode the Multi-octect-integer
-        while longInt > 0:
+        # Encode the Multi-octect-integer, which is at least one octet
+        while longInt > 0 or not encoded_long_int:
             byte = 0xff & longInt
             encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
-- 
2.43.0


From 3aa10823a575ca055eda14c66be286111c6a65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 45/51] fix: decode the Differences parameter

There was no decoder for its type, so that decoding a message with it
raised AttributeError.
---
 messaging/mms/wsp_pdu.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 47bad39..f4cfae6 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -70,7 +70,7 @@ well_known_parameters = {
     0x03: ('Type', 'integer_value'),
     0x05: ('Name', 'text_string'),
     0x06: ('Filename', 'text_string'),
-    0x07: ('Differences', 'Field-name'),
+    0x07: ('Differences', 'field_name'),
     0x08: ('Padding', 'short_integer'),
     0x09: ('Type', 'constrained_encoding'),  # encoding version 1.2
     0x0a: ('Start', 'text_string'),
@@ -1293,6 +1293,27 @@ class Decoder:
         value_length = Decoder.decode_value_length(byte_iter)
         return Decoder.decode_parameter(byte_iter)
 
+    @staticmethod
+    def decode_field_name(byte_iter):
+        """
+        From [5], section 8.4.2.6::
+
+            Field-name = Token-text | Well-known-field-name
+            Well-known-field-name = Short-integer
+
+        :return: The name of the header field
+        :rtype: str
+        """
+        try:
+            field_value = Decoder.decode_short_integer(byte_iter)
+        except DecodeError:
+            return Decoder.decode_token_text(byte_iter)
+
+        if field_value >= len(header_field_names):
+            raise DecodeError('Invalid Header Field value: %d' % field_value)
+
+        return header_field_names[field_value]
+
     @staticmethod
     def decode_well_known_charset(byte_iter):
         """
-- 
2.43.0


From 35e5298dbf78bcd9aa0c33c6e2aca263bcfccc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 46/51] fix: encode versions like 1.2.4 as text

As documented; they were encoded as nothing at all.
---
 messaging/mms/wsp_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index f4cfae6..04a1859 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1653,6 +1653,8 @@ class Encoder:
 
                 minor = minor_version
                 encoded_version_val = Encoder.encode_short_integer(major | minor)
+            else:
+                raise ValueError('More than a major and a minor version')
         except:
             # The value couldn't be encoded as a short-integer; use
             # a text-string instead
-- 
2.43.0


From a3355620ced94c6102001682e1ca4a1511ecbf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 47/51] fix: encode versions like 01 as text

---
 messaging/mms/wsp_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 04a1859..afd694d 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1649,6 +1649,8 @@ class Encoder:
                     if version != '%d.%d' % (major_version, minor_version):
                         raise ValueError('Version would not be preserved')
                 else:
+                    if version != '%d' % major_version:
+                        raise ValueError('Version would not be preserved')
                     minor_version = 15
 
                 minor = minor_version
-- 
2.43.0


From 62210bea8d3e9598752203390a427acc9c9b7171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 48/51] fix: encode before the file is overwritten

A message that can not be encoded left an empty file behind, whatever was
in it before.
---
 messaging/mms/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 4055d0c..2adab51 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -235,8 +235,9 @@ class MMSMessage:
         :rtype array.array('B')
         :return: The binary-encode MMS data, as an array of bytes
         """
+        data = self.encode()
         with open(filename, 'wb') as f:
-            self.encode().tofile(f)
+            data.tofile(f)
 
     @staticmethod
     def from_data(data):
-- 
2.43.0


From 2063770ad2d3dd0768edef442d22e8e3d580ea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 49/51] fix: place the text region of the presentation below
 the image

Its left edge was the right edge of the root layout, so that text was
shown outside of it.
---
 messaging/mms/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 2adab51..8ad0a44 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -127,7 +127,7 @@ class MMSMessage:
         layout_node.appendChild(root_layout_node)
 
         areas = (('Image', '0', '0', '176', '144'),
-                 ('Text', '176', '144', '176', '76'))
+                 ('Text', '0', '144', '176', '76'))
 
         for region_id, left, top, width, height in areas:
             region_node = smil_doc.createElement('region')
-- 
2.43.0


From 347b2fefbb7a5b1dbc318f1ee16a8ef70dfbdfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 50/51] fix: refuse long integers outside the short integers in
 encode_constrained_encoding

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index afd694d..4ce5c8b 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1969,7 +1969,7 @@ class Encoder:
         :rtype: list
         """
         encoded_value = None
-        if isinstance(value, int):
+        if isinstance(value, (int, long)):
             # First try and encode the value as a short-integer
             encoded_value = Encoder.encode_short_integer(value)
         else:
-- 
2.43.0


From e90dfed390169fa5b2c259cf90c430e4ed2cffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 51/51] fix: encode Text-values as tokens or quoted strings

---
 messaging/mms/wsp_pdu.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 4ce5c8b..238c064 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1823,8 +1823,27 @@ class Encoder:
 
     @staticmethod
     def encode_text_value(text):
-        """Stub for encoding Text-values; see :func:`encode_text_string`"""
-        return Encoder.encode_text_string(text)
+        """
+        Encodes a Text-value, see :func:`Decoder.decode_text_value`
+
+        From [5], section 8.4.2.3::
+
+            Text-value = No-value | Token-text | Quoted-string
+
+        :raise EncodeError: The text contains a character that does not fit in
+                            an octet, or the End-of-string character
+
+        :return: The encoded Text-value, as a list of byte values
+        :rtype: list
+        """
+        if not text:
+            return Encoder.encode_no_value()
+
+        try:
+            return Encoder.encode_token_text(text)
+        except EncodeError:
+            # Quoted-string
+            return [34] + Encoder._encode_text(text)
 
     @staticmethod
     def encode_no_value(value=None):
-- 
2.43.0

