From 563507cef5c14813bdf812e11136c7f49ede19e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:36 +0000
Subject: [PATCH 01/33] fix: serialize plain ints below the Int32 range as
 Int64

A Python int smaller than -2147483648 was written as an <I32> element with a
value no Int32 can hold, which neither .NET nor this library can read back.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 37d6c7a..ed3206b 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -738,7 +738,7 @@ class _Serializer:
             if isinstance(value, PSObject):
                 ps_type = type(value)
             elif isinstance(value, int):
-                ps_type = PSInt64 if value > PSInt.MaxValue else PSInt
+                ps_type = PSInt if PSInt.MinValue <= value <= PSInt.MaxValue else PSInt64
             elif isinstance(value, float):
                 ps_type = PSSingle
             else:
-- 
2.43.0


From 69992a347de41d8b6c3f8f28b03db3bb724273b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:37 +0000
Subject: [PATCH 02/33] fix: escape every surrogate and U+FFFE/U+FFFF when
 serializing strings

High surrogates U+D900-U+DBFF were left as is and could not be encoded, and
U+FFFE/U+FFFF are not characters an XML document may contain.
---
 src/psrpcore/types/_serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index ed3206b..980e099 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -70,8 +70,9 @@ log = logging.getLogger(__name__)
 # Finds _x in a case insensitive way which we need to escape first as '_x' is the escape code.
 _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 
-# Finds C0, C1, and surrogate pairs in a unicode string for us to encode according to the PSRP rules.
-_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uD8FF\uDC00-\uDFFF\U00010000-\U0010FFFF]")
+# Finds C0, C1, surrogate pairs, and the BMP noncharacters XML does not allow in a unicode string for us to encode
+# according to the PSRP rules.
+_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
 # To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
 # with the actual UTF-16 byte value and then decode that.
-- 
2.43.0


From e63fe2087a6e7af6712e5a9f465b251551d8b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:42 +0000
Subject: [PATCH 03/33] fix: do not unescape bytes that straddle characters in
 CLIXML strings

The escape pattern ran over the UTF-16 bytes of the string and also matched at
odd offsets, turning text such as U+0100 U+5F00 U+7800 U+3000 ... into
something else.
---
 src/psrpcore/types/_serializer.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 980e099..8142fc4 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -74,9 +74,8 @@ _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 # according to the PSRP rules.
 _STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
-# To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
-# with the actual UTF-16 byte value and then decode that.
-_STRING_DESERIAL_FIND = re.compile(rb"\x00_\x00x((?:\x00[a-fA-F0-9]){4})\x00_")
+# Finds the escaped UTF-16 code units in a CLIXML string.
+_STRING_DESERIAL_FIND = re.compile("_x([a-fA-F0-9]{4})_")
 
 # Python datetime only supports up to microsecond precision but .NET can go to 100 nanoseconds. To support this level
 # of precision we need to extract the fractional seconds part of a datetime ourselves and compute the value.
@@ -468,23 +467,13 @@ def _deserialize_string(
 
     # test '_xD83C_'
 
-    def rplcr(matchobj: typing.Any) -> bytes:
-        # The matched object is the UTF-16 byte representation of the UTF-8 hex string value. We need to decode the
-        # byte str to unicode and then unhexlify that hex string to get the actual bytes of the _x****_ value, e.g.
-        # group(0) == b'\x00_\x00x\x000\x000\x000\x00A\x00_'
-        # group(1) == b'\x000\x000\x000\x00A'
-        # unicode (from utf-16-be) == '000A'
-        # returns b'\x00\x0A'
-        match_hex = matchobj.group(1)
-        hex_string = match_hex.decode("utf-16-be")
-        return binascii.unhexlify(hex_string)
-
-    # Need to ensure we start with a unicode representation of the string so that we can get the actual UTF-16 bytes
-    # value from that string.
-    b_value = value.encode("utf-16-be")
-    b_escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, b_value)
-
-    return b_escaped.decode("utf-16-be", errors="surrogatepass")
+    def rplcr(matchobj: typing.Any) -> str:
+        return chr(int(matchobj.group(1), 16))
+
+    escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, value)
+
+    # The escapes are for UTF-16 code units, going through the UTF-16 bytes combines the surrogate pairs.
+    return escaped.encode("utf-16-be", errors="surrogatepass").decode("utf-16-be", errors="surrogatepass")
 
 
 def _serialize_datetime(
-- 
2.43.0


From b8f89f4b64d6831f8c506e959ae60fd2f7b3adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:48 +0000
Subject: [PATCH 04/33] fix: escape the ToString text when serializing an
 object

The reader unescapes it but the writer did not escape it, so control
characters produced invalid XML and text such as _x0041_ changed.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 8142fc4..be4d3cc 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -930,7 +930,7 @@ class _Serializer:
                 to_string = ps_object.to_string
 
             if to_string:
-                ElementTree.SubElement(element, "ToString").text = to_string
+                ElementTree.SubElement(element, "ToString").text = _serialize_string(to_string)
 
             if is_complex and no_props and not isinstance(value, PSObject):
                 # If this was a complex object but no properties were defined we consider this a normal Python
-- 
2.43.0


From 27f3aefa0731ac56ba31c7975ea028df64f5a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:55 +0000
Subject: [PATCH 05/33] fix: escape and unescape type names like every other
 CLIXML string

---
 src/psrpcore/types/_serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index be4d3cc..d06b3ee 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -865,7 +865,7 @@ class _Serializer:
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-                    ElementTree.SubElement(tn, "T").text = type_name
+                    ElementTree.SubElement(tn, "T").text = _serialize_string(type_name)
 
         no_props = True
         for xml_name, prop_type in [("Props", "adapted"), ("MS", "extended")]:
@@ -1031,7 +1031,7 @@ class _Serializer:
         if element_tag != "Obj":
             raise ValueError(f"Unknown element found: {element.tag}")
 
-        type_names = [e.text or "" for e in element.findall("TN/T")]
+        type_names = [_deserialize_string(e.text or "") for e in element.findall("TN/T")]
         if type_names:
             tn_ref = element.find("TN")
             if tn_ref is not None:
-- 
2.43.0


From 6b3b725d6f7d15386e466893a2a48fe211ba585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:08 +0000
Subject: [PATCH 06/33] fix: do not label prompt response data as default
 stream data

data_to_send() combined queued messages of one pipeline into a single payload
even when their stream types differed, so the payload's stream_type was wrong
for part of its data.
---
 src/psrpcore/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 0a453aa..7bc13bd 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -261,7 +261,7 @@ class RunspacePool(typing.Generic[T1]):
                 pipeline_id = message.pipeline_id
 
             # We can only combine fragments if they are for the same target.
-            if pipeline_id != message.pipeline_id:
+            if pipeline_id != message.pipeline_id or stream_type != message.stream_type:
                 break
 
             if amount is None:
-- 
2.43.0


From e2ef53d437ed22544fe43f56d0d1f1cced6c00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:15 +0000
Subject: [PATCH 07/33] fix: wait for the rest of a fragment instead of failing
 or truncating it

next_event() is documented to return None when not enough data has been
received, but a payload that ended inside a fragment header raised struct.error
and one that ended inside the fragment data was silently truncated.
---
 src/psrpcore/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 7bc13bd..b0484ae 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -315,7 +315,11 @@ class RunspacePool(typing.Generic[T1]):
                 data buffer or `None` if not enough data has been received.
         """
         # First unpacks the raw receive buffer into messages.
-        while self._receive_buffer:
+        while len(self._receive_buffer) >= 21:
+            fragment_length = int.from_bytes(self._receive_buffer[17:21], byteorder="big")
+            if len(self._receive_buffer) < 21 + fragment_length:
+                break  # The rest of the fragment has not been received yet.
+
             fragment = unpack_fragment(self._receive_buffer)
             log.debug(
                 "Unpacked fragment - OID: %s, FID: %s, Start: %s, End: %s, Length: %s",
-- 
2.43.0


From 0830a9e4c8aa845e78bef4c00545d45b6f043501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 08/33] fix: send None as pipeline input, not pipeline output

A None given to a client pipeline's send() was queued as a PipelineOutput
message, which a server does not accept as input.
---
 src/psrpcore/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index b0484ae..15e2a7b 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -380,7 +380,7 @@ class RunspacePool(typing.Generic[T1]):
         """
         if message is None:
             b_data = b""
-            message_type = PSRPMessageType.PipelineOutput
+            message_type = message_type or PSRPMessageType.PipelineOutput
 
         elif isinstance(message, EndOfPipelineInput):
             b_data = b""  # Special edge case for this particular message type
@@ -449,7 +449,7 @@ class RunspacePool(typing.Generic[T1]):
             # Special edge case for EndOfPipelineInput which has no data.
             ps_object = EndOfPipelineInput()
 
-        elif message.message_type == PSRPMessageType.PipelineOutput and data == b"":
+        elif message.message_type in [PSRPMessageType.PipelineInput, PSRPMessageType.PipelineOutput] and data == b"":
             ps_object = None
 
         else:
-- 
2.43.0


From 4a86f0b1979b23ed399c48bdf6dcbc124924b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:30 +0000
Subject: [PATCH 09/33] fix: honour an explicit STA apartment state on a
 pipeline

STA is 0, so it was treated as not set and replaced by the pool's value.
---
 src/psrpcore/_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 1c29340..8ca3eeb 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -555,7 +555,7 @@ class ClientPowerShell(_ClientPipeline):
         super().__init__(runspace_pool=runspace_pool, pipeline_id=pipeline_id)
         self.metadata: PowerShell = PowerShell(
             add_to_history=add_to_history,
-            apartment_state=apartment_state or runspace_pool.apartment_state,
+            apartment_state=runspace_pool.apartment_state if apartment_state is None else apartment_state,
             history=history,
             host=host,
             is_nested=is_nested,
-- 
2.43.0


From ca83ed2616bb3613fc332fac2005fed82bea082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:15 +0000
Subject: [PATCH 10/33] fix: do not drop the trailing zero of whole seconds in
 durations

rstrip('.0') turned 10, 20, 30, 40 and 50 seconds into 1, 2, 3, 4 and 5.
---
 src/psrpcore/types/_serializer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index d06b3ee..d0346ab 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -544,14 +544,13 @@ def _serialize_duration(
     if total_ticks or days == 0:
         hours, total_ticks = divmod(total_ticks, 36000000000)
         minutes, total_ticks = divmod(total_ticks, 600000000)
-        seconds = total_ticks / 10000000
+        seconds, fraction = divmod(total_ticks, 10000000)
 
         days_str = f"{days}D" if days else ""
         hours_str = f"{hours}H" if hours else ""
         minutes_str = f"{minutes}M" if minutes else ""
-        seconds_str = f"{seconds:.7f}" if (seconds or (not hours_str and not minutes_str)) else ""
-        if seconds_str:
-            seconds_str = seconds_str.rstrip(".0").zfill(1) + "S"
+        fraction_str = f".{fraction:07d}".rstrip("0") if fraction else ""
+        seconds_str = f"{seconds}{fraction_str}S" if (total_ticks or (not hours_str and not minutes_str)) else ""
 
         time_str = f"T{hours_str}{minutes_str}{seconds_str}"
 
-- 
2.43.0


From 443af244eacfab59ef3e6a0f83394a5f883a249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:21 +0000
Subject: [PATCH 11/33] fix: zero pad years before 1000 when serializing a
 DateTime

[DateTime]::MinValue was sent as 1-01-01T00:00:00, which neither .NET nor this
library can parse.
---
 src/psrpcore/types/_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index d0346ab..c3bb3ca 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -508,7 +508,8 @@ def _serialize_datetime(
         utc_offset = value.strftime("%z")
         timezone = f"{utc_offset[:3]}:{utc_offset[3:]}"
 
-    dt_str = value.strftime(f"%Y-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
+    # %Y is not zero padded on all platforms for years before 1000.
+    dt_str = value.strftime(f"{value.year:04d}-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
 
     return dt_str
 
-- 
2.43.0


From a1e3b0ca3936340ec49ee69384ae43206c0ebf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:31 +0000
Subject: [PATCH 12/33] fix: keep the nanoseconds when a PSDuration or
 PSDateTime is the right operand

timedelta + PSDuration, timedelta + PSDateTime and datetime - PSDateTime used
the operators of the Python base types, which ignore the nanoseconds.
---
 src/psrpcore/types/_primitive.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 34bbeeb..f26ac8c 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -406,6 +406,8 @@ class PSDateTime(PSObject, datetime.datetime):
 
         return new_date
 
+    __radd__ = __add__
+
     def __sub__(  # type: ignore[override] # cannot seem to document NotImplemented as a return type
         self,
         other: typing.Union[datetime.datetime, datetime.timedelta],
@@ -417,6 +419,15 @@ class PSDateTime(PSObject, datetime.datetime):
         nanosecond_diff = self.nanosecond - getattr(other, "nanosecond", 0)
         return duration + PSDuration(nanoseconds=nanosecond_diff)
 
+    def __rsub__(
+        self,
+        other: datetime.datetime,
+    ) -> "PSDuration":
+        if not isinstance(other, datetime.datetime):
+            return NotImplemented
+
+        return PSDateTime(other) - self  # type: ignore[return-value]
+
     @classmethod
     def strptime(
         cls,
@@ -509,6 +520,8 @@ class PSDuration(PSObject, datetime.timedelta):
         new_nano = _timedelta_total_nanoseconds(self) + _timedelta_total_nanoseconds(other)
         return PSDuration(nanoseconds=new_nano)
 
+    __radd__ = __add__
+
     @_ensure_types_and_self(datetime.timedelta)
     def __sub__(
         self,
-- 
2.43.0


From 8933537ce3905aef5a1854a2174e68a01abe9ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:38 +0000
Subject: [PATCH 13/33] fix: keep the nanoseconds when copying a PSDateTime

---
 src/psrpcore/types/_primitive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index f26ac8c..4a9aa25 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -338,12 +338,13 @@ class PSDateTime(PSObject, datetime.datetime):
         self.nanosecond = getattr(self, "nanosecond", None) or 0
 
     def __new__(cls, *args: typing.Any, **kwargs: typing.Any) -> "PSDateTime":
-        nanosecond = 0
-        if "nanosecond" in kwargs:
-            nanosecond = kwargs.pop("nanosecond")
+        nanosecond = kwargs.pop("nanosecond", None)
 
         if args and isinstance(args[0], datetime.datetime):
             dt = args[0]
+            if nanosecond is None:
+                nanosecond = getattr(dt, "nanosecond", None)
+
             instance = super().__new__(
                 cls,
                 dt.year,
@@ -360,7 +361,7 @@ class PSDateTime(PSObject, datetime.datetime):
         else:
             instance = super().__new__(cls, *args, **kwargs)
 
-        instance.nanosecond = nanosecond
+        instance.nanosecond = nanosecond or 0
         return instance
 
     def __repr__(self) -> str:
-- 
2.43.0


From 3e337c4e3e79756d0cedf83472e06c0656375671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:42 +0000
Subject: [PATCH 14/33] fix: return the byte when indexing a PSByteArray

---
 src/psrpcore/types/_primitive.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 4a9aa25..575208b 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -875,14 +875,15 @@ class PSByteArray(PSObject, bytes):
     def __getitem__(  # type: ignore[override]  # The __mro__ is confusing mypy
         self,
         item: typing.Union[str, int, slice],
-    ) -> "PSByteArray":
+    ) -> typing.Union[int, "PSByteArray"]:
         # Allows slicing alongside getting extended properties which preserves the underlying type.
         if isinstance(item, str):
             return super().__getitem__(item)
 
         else:
-            # String indexing, need to preserve the type.
-            return type(self)(bytes.__getitem__(self, item))
+            # Slicing needs to preserve the type, indexing returns the byte at that position.
+            value = bytes.__getitem__(self, item)
+            return value if isinstance(value, int) else type(self)(value)
 
     def __repr__(self) -> str:
         return bytes.__repr__(self)
-- 
2.43.0


From 51eb298cc76e50b9f63e9213bf3e7e29555bac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:36 +0000
Subject: [PATCH 15/33] fix: do not round the seconds of a duration through a
 float

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index c3bb3ca..b84e5ff 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -390,7 +390,7 @@ def _deserialize_duration(
     hours = int(matches["hours"] or 0)
     minutes = int(matches["minutes"] or 0)
 
-    seconds = int(float(matches["seconds"] or 0))
+    seconds = int((matches["seconds"] or "").partition(".")[0] or 0)
     seconds += minutes * 60
     seconds += hours * 3600
     seconds += days * 86400
-- 
2.43.0


From 8fb986f6cd71dcbb9d78a3f9c40b90887694c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:58 +0000
Subject: [PATCH 16/33] fix: check the range of an integer type created from an
 enum member

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 575208b..777580d 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -124,7 +124,7 @@ class PSIntegerBase(PSObject, int):
 
         if cls != type(num):
             # If the value is not the exact instance recreate it from an actual int.
-            return super().__new__(cls, int(num))
+            num = super().__new__(cls, int(num))
 
         int_num = int(num)
 
-- 
2.43.0


From d353765ef07d67175dce16e23096059acbde60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:44 +0000
Subject: [PATCH 17/33] fix: refuse a bool as the number of available runspaces

---
 src/psrpcore/_server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index fca9014..f29cfd3 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -274,7 +274,10 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         ):
             raise PSRPCoreError(f"Response for this event expects a bool not {type(response).__name__}")
 
-        if isinstance(event, GetAvailableRunspacesEvent) and not isinstance(response, int):
+        # A bool is also an int but the client would see it as the result of a set or reset request.
+        if isinstance(event, GetAvailableRunspacesEvent) and (
+            isinstance(response, bool) or not isinstance(response, int)
+        ):
             raise PSRPCoreError(f"Response for this event expects an int not {type(response).__name__}")
 
         del self._ci_events[ci]
-- 
2.43.0


From 095e29008b6e584f60b5bc6bbf45af394b9cc6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:17 +0000
Subject: [PATCH 18/33] fix: encrypt a secure string received from another
 Runspace Pool again when it is sent

---
 src/psrpcore/types/_primitive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 777580d..b27444a 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -1250,5 +1250,10 @@ class PSSecureString(PSObject):
             # the value and return that for serialization.
             return cls(cipher.encrypt(instance._value), cipher)
 
+        elif instance._cipher is not cipher:
+            # The value was encrypted with the key of another RunspacePool, the receiver can only decrypt values that
+            # are encrypted with the key it knows about.
+            return cls(cipher.encrypt(instance.decrypt()), cipher)
+
         else:
             return instance
-- 
2.43.0


From 4815d9deda5b7c7caa4fd9376b244264b2ec3621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:53 +0000
Subject: [PATCH 19/33] fix: serialize equal but distinct objects separately

---
 src/psrpcore/types/_serializer.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index b84e5ff..ae203fd 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -14,7 +14,6 @@ import queue
 import re
 import typing
 import uuid
-import weakref
 from xml.etree import ElementTree
 
 from psrpcore.types._base import (
@@ -643,8 +642,9 @@ class _Serializer:
         self._kwargs = kwargs
 
         # Used for serialization to determine fi an object is already serialized or not.
-        self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
-        self._obj_ref_enum: typing.Dict[int, int] = {}
+        # This is based on the identity of the object as 2 objects that are equal can still have different properties. The
+        # object is stored with the id so that it stays alive, and the identity unique, while it is serializing.
+        self._obj_ref: typing.Dict[int, typing.Tuple[int, typing.Any]] = {}
         self._obj_ref_id = 0
         self._tn_ref_list: typing.List[str] = []
 
@@ -1172,14 +1172,12 @@ class _Serializer:
         next_ref_id = self._obj_ref_id
 
         try:
-            ref_id = self._obj_ref.setdefault(value, next_ref_id)
-        except TypeError as e:
-            # Some objects cannot have a weakref, try id() only when dealing with known workable types.
-            if isinstance(value, enum.Enum):
-                ref_id = self._obj_ref_enum.setdefault(id(value), next_ref_id)
-
-            else:
-                ref_id = next_ref_id
+            hash(value)
+        except TypeError:
+            # Mutable containers, like a list or dict, are always serialized in full.
+            ref_id = next_ref_id
+        else:
+            ref_id = self._obj_ref.setdefault(id(value), (next_ref_id, value))[0]
 
         existing_ref = True
         if next_ref_id == ref_id:
-- 
2.43.0


From f83f1ca4a200b1b085107df6e792b4d916425655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:27 +0000
Subject: [PATCH 20/33] fix: only refer to the type names of another object
 when all of them are the same

---
 src/psrpcore/types/_serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index ae203fd..88471e4 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -646,7 +646,7 @@ class _Serializer:
         # object is stored with the id so that it stays alive, and the identity unique, while it is serializing.
         self._obj_ref: typing.Dict[int, typing.Tuple[int, typing.Any]] = {}
         self._obj_ref_id = 0
-        self._tn_ref_list: typing.List[str] = []
+        self._tn_ref_list: typing.List[typing.List[str]] = []
 
         # Used for deserialization
         self._obj_ref_map: typing.Dict[str, typing.Any] = {}
@@ -851,17 +851,16 @@ class _Serializer:
 
         # Do not add the type names for extended primitive object unless it's an enum
         if ps_object.type_names and (is_enum or not is_extended_primitive):
-            type_names = ps_object.type_names
-            main_type = type_names[0]
-            is_ref = main_type in self._tn_ref_list
+            type_names = list(ps_object.type_names)
+            is_ref = type_names in self._tn_ref_list
 
             if is_ref:
-                ref_id = self._tn_ref_list.index(main_type)
+                ref_id = self._tn_ref_list.index(type_names)
                 ElementTree.SubElement(element, "TNRef", RefId=str(ref_id))
 
             else:
-                self._tn_ref_list.append(main_type)
-                ref_id = self._tn_ref_list.index(main_type)
+                self._tn_ref_list.append(type_names)
+                ref_id = self._tn_ref_list.index(type_names)
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-- 
2.43.0


From 3ea569a28ad8742119f4d00729cdaa71b615ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:03 +0000
Subject: [PATCH 21/33] fix: keep the entries of a queue when serializing it

---
 src/psrpcore/types/_serializer.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 88471e4..166c564 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -898,13 +898,18 @@ class _Serializer:
         elif isinstance(value, (PSQueueBase, queue.Queue)):
             que_element = ElementTree.SubElement(element, self._type_to_element[PSQueue])
 
-            while True:
-                try:
-                    que_entry = self.serialize(value.get(block=False))
-                except queue.Empty:
-                    break
-                else:
-                    que_element.append(que_entry)
+            # The entries are kept in the queue, serializing a value must not change it.
+            with value.mutex:
+                que_entries = list(value.queue)
+
+            if isinstance(value, queue.LifoQueue):
+                que_entries.reverse()
+
+            elif isinstance(value, queue.PriorityQueue):
+                que_entries.sort()
+
+            for que_entry in que_entries:
+                que_element.append(self.serialize(que_entry))
 
         elif isinstance(value, (PSDictBase, dict)):
             dct_element = ElementTree.SubElement(element, self._type_to_element[PSDict])
-- 
2.43.0


From 6e16445c6a15b153d48ed8863836e784535df51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 22/33] fix: resolve references between the properties and
 entries of a container

---
 src/psrpcore/types/_serializer.py | 78 +++++++++++++++++--------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 166c564..e49c8ed 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1062,46 +1062,20 @@ class _Serializer:
         elif issubclass(rehydrated_value, (PSEnumBase, PSFlagBase)):
             original_type_names = rehydrated_value.PSObject.type_names
 
-        props: typing.Dict[str, typing.Optional[ElementTree.Element]] = {
-            "adapted_properties": None,
-            "extended_properties": None,
-        }
-        to_string = None
+        # A container is created before anything in the object is deserialized as the properties can be before the
+        # container element and they may refer back to the object.
         for obj_entry in element:
-            if obj_entry.tag == "Props":
-                props["adapted_properties"] = obj_entry
-
-            elif obj_entry.tag == "MS":
-                props["extended_properties"] = obj_entry
-
-            elif obj_entry.tag == "ToString":
-                to_string = self.deserialize(obj_entry)
-
-            elif obj_entry.tag == self._type_to_element[PSDict]:
+            if obj_entry.tag == self._type_to_element[PSDict]:
                 dict_type: typing.Type[PSDictBase] = PSDict
                 if isinstance(value, PSDictBase):
                     dict_type = type(value)
 
                 value = self._update_value_ref(dict_type(), ref_id)
 
-                for dict_entry in obj_entry:
-                    dict_key = dict_entry.find('*/[@N="Key"]')
-                    dict_value = dict_entry.find('*/[@N="Value"]')
-                    if dict_key is None:
-                        raise ValueError("Failed to find dict Key attribute")
-
-                    if dict_value is None:
-                        raise ValueError("Failed to find dict Value attribute")
-
-                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
-
             elif obj_entry.tag == self._type_to_element[PSQueue]:
                 if not isinstance(value, PSQueueBase):
                     value = self._update_value_ref(PSQueue(), ref_id)
 
-                for queue_entry in obj_entry:
-                    value.put(self.deserialize(queue_entry))
-
             elif obj_entry.tag in [
                 self._type_to_element[PSIEnumerable],
                 self._type_to_element[PSList],
@@ -1122,6 +1096,44 @@ class _Serializer:
                     list_type = type(value)
 
                 value = self._update_value_ref(list_type(), ref_id)
+
+        # The values are deserialized in the order they are in the document as a Ref only refers to what is before it.
+        props: typing.Dict[str, typing.List[typing.Tuple[str, typing.Any]]] = {
+            "adapted_properties": [],
+            "extended_properties": [],
+        }
+        to_string = None
+        for obj_entry in element:
+            if obj_entry.tag in ["Props", "MS"]:
+                prop_group = props["adapted_properties" if obj_entry.tag == "Props" else "extended_properties"]
+                for obj_property in obj_entry:
+                    prop_name = _deserialize_string(obj_property.attrib["N"])
+                    prop_group.append((prop_name, self.deserialize(obj_property)))
+
+            elif obj_entry.tag == "ToString":
+                to_string = self.deserialize(obj_entry)
+
+            elif obj_entry.tag == self._type_to_element[PSDict]:
+                for dict_entry in obj_entry:
+                    dict_key = dict_entry.find('*/[@N="Key"]')
+                    dict_value = dict_entry.find('*/[@N="Value"]')
+                    if dict_key is None:
+                        raise ValueError("Failed to find dict Key attribute")
+
+                    if dict_value is None:
+                        raise ValueError("Failed to find dict Value attribute")
+
+                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
+
+            elif obj_entry.tag == self._type_to_element[PSQueue]:
+                for queue_entry in obj_entry:
+                    value.put(self.deserialize(queue_entry))
+
+            elif obj_entry.tag in [
+                self._type_to_element[PSIEnumerable],
+                self._type_to_element[PSList],
+                self._type_to_element[PSStack],
+            ]:
                 for list_entry in obj_entry:
                     value.append(self.deserialize(list_entry))
 
@@ -1147,17 +1159,15 @@ class _Serializer:
             if original_type_names:
                 value.PSObject.type_names = original_type_names
 
-            for prop_group_name, prop_xml in props.items():
-                if prop_xml is None:
+            for prop_group_name, prop_values in props.items():
+                if not prop_values:
                     continue
 
                 # add_note_property only sets to extended properties. We just use the actual prop list as the scratch
                 # object's extended properties. Anything modified/added will reflect in our actual object property.
                 scratch_obj = PSCustomObject()
                 scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
-                for obj_property in prop_xml:
-                    prop_name = _deserialize_string(obj_property.attrib["N"])
-                    prop_value = self.deserialize(obj_property)
+                for prop_name, prop_value in prop_values:
                     add_note_property(scratch_obj, prop_name, prop_value, force=True)
 
         # Final override that allows classes to transform the raw CLIXML deserialized object to something more human
-- 
2.43.0


From 68172758cff9cef2fbf2279d561b8499f0ef10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:40 +0000
Subject: [PATCH 23/33] fix: deserialize a dictionary with TimeSpan or Version
 keys

---
 src/psrpcore/types/_primitive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index b27444a..d533699 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -551,6 +551,9 @@ class PSDuration(PSObject, datetime.timedelta):
     ) -> bool:
         return _timedelta_total_nanoseconds(self) == _timedelta_total_nanoseconds(other)
 
+    # Defining __eq__ removes the inherited hash, it is needed to be the key of a dict.
+    __hash__ = datetime.timedelta.__hash__
+
     @_ensure_types_and_self(datetime.timedelta)
     def __ne__(
         self,
@@ -1080,6 +1083,10 @@ class PSVersion(PSObject):
 
         return self._cmp(other, operator.eq, "==")
 
+    def __hash__(self) -> int:
+        # A version is also equal to its string.
+        return hash(str(self))
+
     def __ge__(
         self,
         other: typing.Union["PSVersion", str],
-- 
2.43.0


From 80507ce8a44a027b98f80cc23206a3c5c5af2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:14 +0000
Subject: [PATCH 24/33] fix: deserialize CLIXML without any objects

The self closing root element of an empty document was stripped down to an
opening tag which failed to parse.
---
 src/psrpcore/types/_serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index e49c8ed..25d3ecb 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -183,6 +183,10 @@ def deserialize_clixml(
     # breaking our parser. It is easier to just strip it from the root Objs
     # element.
     objs_header_end_idx = clixml.find(">")
+    if clixml[objs_header_end_idx - 1] == "/":
+        # No entries, the root element is closed by its own tag.
+        objs_header_end_idx -= 1
+
     clixml = "<Objs" + clixml[objs_header_end_idx:]
 
     raw_clixml = ElementTree.fromstring(clixml)
-- 
2.43.0


From 795f3f6ab382e8a1427bcd1230f38d6dff0d4da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:14 +0000
Subject: [PATCH 25/33] fix: write the CLIXML header with the first data of a
 shell

Asking for data before anything was written used up the header, what was
written afterwards was not recognised as CLIXML.
---
 src/psrpcore/_clixml_shell.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index 5580245..eb85838 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -318,15 +318,11 @@ class ClixmlShell:
         Returns:
             str: The string to write to stdout.
         """
-        if self._written_marker:
-            prefix = "\n"
-        else:
-            prefix = "#< CLIXML\n"
-            self._written_marker = True
-
         stdout = ""
         if self._stdout:
+            prefix = "\n" if self._written_marker else "#< CLIXML\n"
             stdout = f"{prefix}{serialize_clixml(self._stdout, self._cipher)}"
+            self._written_marker = True
             self._stdout = []
 
         return stdout
-- 
2.43.0


From 1d3cae7dcbd12cfd03045bb830d0751413a96f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 26/33] fix: leave the lists given to PSType as they are

---
 src/psrpcore/types/_base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/types/_base.py b/src/psrpcore/types/_base.py
index 87d8df7..832ccfc 100644
--- a/src/psrpcore/types/_base.py
+++ b/src/psrpcore/types/_base.py
@@ -778,17 +778,22 @@ class PSType:
         if not issubclass(cls, PSObject):
             raise TypeError(f"PSType class {cls.__module__}.{cls.__qualname__} must be a subclass of PSObject")
 
+        # The lists given by the caller could be used for another class so they must not be changed.
+        type_names = list(self.type_names)
+        adapted_properties = list(self.adapted_properties)
+        extended_properties = list(self.extended_properties)
+
         if not self.skip_inheritance:
-            self.type_names.extend(cls.PSObject.type_names)
-            self.adapted_properties.extend(cls.PSObject.adapted_properties)
-            self.extended_properties.extend(cls.PSObject.extended_properties)
+            type_names.extend(cls.PSObject.type_names)
+            adapted_properties.extend(cls.PSObject.adapted_properties)
+            extended_properties.extend(cls.PSObject.extended_properties)
 
-        cls.PSObject = PSObjectMeta(self.type_names, self.adapted_properties, self.extended_properties)
+        cls.PSObject = PSObjectMeta(type_names, adapted_properties, extended_properties)
 
         registry = TypeRegistry()
 
-        if self.rehydrate and self.type_names and self.type_names[0] not in registry.type_registry:
-            registry.type_registry[self.type_names[0]] = cls
+        if self.rehydrate and type_names and type_names[0] not in registry.type_registry:
+            registry.type_registry[type_names[0]] = cls
 
         if self.tag is not None and self.tag not in registry.element_registry:
             registry.element_registry[self.tag] = cls
-- 
2.43.0


From 03eb04e26e80b6e92cdd8d4a49dc407e2056500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 27/33] fix: do not set what a peer sends with an enum on its
 shared member

---
 src/psrpcore/types/_serializer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 25d3ecb..f6bd4cf 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1155,10 +1155,14 @@ class _Serializer:
 
                     value = self._update_value_ref(new_value, ref_id)
 
-        if to_string is not None:
+        # The members of an enum are shared by everything that uses them, what is only known about this object must not
+        # be set on them.
+        is_enum = isinstance(value, enum.Enum)
+
+        if to_string is not None and not is_enum:
             value.PSObject.to_string = to_string
 
-        if isinstance(value, PSObject):
+        if isinstance(value, PSObject) and not is_enum:
             # Ensure the object's type names are what was in the CLIXML
             if original_type_names:
                 value.PSObject.type_names = original_type_names
-- 
2.43.0


From 539f442958729fb0ecd70b41d0cea00d554aa7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 28/33] fix: deserialize a ProgressRecord with empty text

---
 src/psrpcore/types/_serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index f6bd4cf..047d9b8 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -433,15 +433,15 @@ def _deserialize_progress_record(
         ("SD", "StatusDescription", str),
     ]:
         element_value = value.find(element_key)
-        if element_value is None or not element_value.text:
+        if element_value is None or (not element_value.text and prop_type != str):
             continue
 
         prop_value: typing.Union[int, str, ProgressRecordType]
         if prop_type == int:
-            prop_value = int(element_value.text)
+            prop_value = int(element_value.text or "")
 
         else:
-            prop_value = _deserialize_string(element_value.text)
+            prop_value = _deserialize_string(element_value.text or "")
 
         if prop_type == ProgressRecordType:
             prop_value = ProgressRecordType[str(prop_value)]
-- 
2.43.0


From 033de2f501928c1d910cebbb9f21ae1a705fef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:52 +0000
Subject: [PATCH 29/33] fix: compare PSDateTime values with their nanoseconds

---
 src/psrpcore/types/_primitive.py | 55 ++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index d533699..ed816d2 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -429,6 +429,61 @@ class PSDateTime(PSObject, datetime.datetime):
 
         return PSDateTime(other) - self  # type: ignore[return-value]
 
+    def __eq__(
+        self,
+        other: object,
+    ) -> bool:
+        result = datetime.datetime.__eq__(self, other)
+        if result is True:
+            return self.nanosecond == getattr(other, "nanosecond", 0)
+
+        return result
+
+    __hash__ = datetime.datetime.__hash__
+
+    def __ne__(
+        self,
+        other: object,
+    ) -> bool:
+        result = self.__eq__(other)
+        return result if result is NotImplemented else not result
+
+    def __le__(
+        self,
+        other: datetime.datetime,
+    ) -> bool:
+        if datetime.datetime.__eq__(self, other) is True:
+            return self.nanosecond <= getattr(other, "nanosecond", 0)
+
+        return datetime.datetime.__le__(self, other)
+
+    def __lt__(
+        self,
+        other: datetime.datetime,
+    ) -> bool:
+        if datetime.datetime.__eq__(self, other) is True:
+            return self.nanosecond < getattr(other, "nanosecond", 0)
+
+        return datetime.datetime.__lt__(self, other)
+
+    def __ge__(
+        self,
+        other: datetime.datetime,
+    ) -> bool:
+        if datetime.datetime.__eq__(self, other) is True:
+            return self.nanosecond >= getattr(other, "nanosecond", 0)
+
+        return datetime.datetime.__ge__(self, other)
+
+    def __gt__(
+        self,
+        other: datetime.datetime,
+    ) -> bool:
+        if datetime.datetime.__eq__(self, other) is True:
+            return self.nanosecond > getattr(other, "nanosecond", 0)
+
+        return datetime.datetime.__gt__(self, other)
+
     @classmethod
     def strptime(
         cls,
-- 
2.43.0


From 68cdca8720818369c28bfbf64fe0bf6ebd7f099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 30/33] fix: keep the nanoseconds in PSDateTime.replace and
 astimezone

---
 src/psrpcore/types/_primitive.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index ed816d2..570fcce 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -484,6 +484,24 @@ class PSDateTime(PSObject, datetime.datetime):
 
         return datetime.datetime.__gt__(self, other)
 
+    def astimezone(
+        self,
+        tz: typing.Optional[datetime.tzinfo] = None,
+    ) -> "PSDateTime":
+        new_date = PSDateTime(super().astimezone(tz))
+        new_date.nanosecond = self.nanosecond
+        return new_date
+
+    def replace(
+        self,
+        *args: typing.Any,
+        **kwargs: typing.Any,
+    ) -> "PSDateTime":
+        nanosecond = kwargs.pop("nanosecond", self.nanosecond)
+        new_date = PSDateTime(super().replace(*args, **kwargs))
+        new_date.nanosecond = nanosecond
+        return new_date
+
     @classmethod
     def strptime(
         cls,
-- 
2.43.0


From 4b8a1fbe8469f4a25929b62e8a604c96460d21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 31/33] fix: abs and bool of a PSDuration include the
 nanoseconds

---
 src/psrpcore/types/_primitive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 570fcce..7435f1e 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -611,6 +611,12 @@ class PSDuration(PSObject, datetime.timedelta):
     ) -> "PSDuration":
         return -self + other
 
+    def __abs__(self) -> "PSDuration":
+        return PSDuration(nanoseconds=abs(_timedelta_total_nanoseconds(self)))
+
+    def __bool__(self) -> bool:
+        return _timedelta_total_nanoseconds(self) != 0
+
     def __neg__(self) -> "PSDuration":
         return PSDuration(nanoseconds=-(_timedelta_total_nanoseconds(self)))
 
-- 
2.43.0


From 8d5d1b512246fcb757b7aadcd9b51f78f3fc8375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 32/33] fix: copy.copy and copy.deepcopy keep the nanoseconds

---
 src/psrpcore/types/_primitive.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 7435f1e..438880e 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -484,6 +484,12 @@ class PSDateTime(PSObject, datetime.datetime):
 
         return datetime.datetime.__gt__(self, other)
 
+    def __copy__(self) -> "PSDateTime":
+        return type(self)(self)
+
+    def __deepcopy__(self, memo: typing.Dict[int, typing.Any]) -> "PSDateTime":
+        return type(self)(self)
+
     def astimezone(
         self,
         tz: typing.Optional[datetime.tzinfo] = None,
@@ -611,6 +617,12 @@ class PSDuration(PSObject, datetime.timedelta):
     ) -> "PSDuration":
         return -self + other
 
+    def __copy__(self) -> "PSDuration":
+        return type(self)(self)
+
+    def __deepcopy__(self, memo: typing.Dict[int, typing.Any]) -> "PSDuration":
+        return type(self)(self)
+
     def __abs__(self) -> "PSDuration":
         return PSDuration(nanoseconds=abs(_timedelta_total_nanoseconds(self)))
 
-- 
2.43.0


From 2905e741bcd537432fb78429182181781e000ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 33/33] fix: deserialize the key and value of a dictionary
 entry in document order

The value was deserialized before the key, so a reference or type name
reference to the key, which comes first in the document, could not be resolved.
---
 src/psrpcore/types/_serializer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 047d9b8..7220072 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1127,7 +1127,11 @@ class _Serializer:
                     if dict_value is None:
                         raise ValueError("Failed to find dict Value attribute")
 
-                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
+                    # The first of the two in the document may be what the other one refers to.
+                    entry = {
+                        e.attrib["N"]: self.deserialize(e) for e in dict_entry if e is dict_key or e is dict_value
+                    }
+                    value[entry["Key"]] = entry["Value"]
 
             elif obj_entry.tag == self._type_to_element[PSQueue]:
                 for queue_entry in obj_entry:
-- 
2.43.0

