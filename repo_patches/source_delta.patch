From 127d9e522b6505728fcf26ab4de92c6fe351a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 1/8] fix: reject text field length that is not all digits when
 decoding

int() accepts "+2", " 2", "-1", and "1_0", so such length indicators were
decoded as if they were valid numbers.
---
 iso8583/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index ff0574e..cb43c35 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -518,6 +518,10 @@ def _decode_field(
                 ) from None
 
             try:
+                # int() alone also accepts signs, spaces, underscores,
+                # and non-ASCII digits.
+                if not (decoded_length.isascii() and decoded_length.isdigit()):
+                    raise ValueError(decoded_length)
                 enc_field_len = int(decoded_length)
             except Exception:
                 raise DecodeError(
-- 
2.43.0


From 2ddcdff067d3de5e1b5ec2071652566f85cd1f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 2/8] fix: reject whitespace in a text bitmap when decoding

bytes.fromhex() skips whitespace. A bitmap such as "40              " was
accepted as a single byte.
---
 iso8583/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index cb43c35..21432c2 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -1,4 +1,5 @@
 from typing import Any, Dict, Literal, Mapping, Set, Tuple, Type, Union
+import binascii
 
 __all__ = ["decode", "DecodeError"]
 
@@ -380,7 +381,7 @@ def _decode_bitmap(
         )
 
         try:
-            bitmap = bytes.fromhex(decoded_field_data)
+            bitmap = binascii.a2b_hex(decoded_field_data)
         except Exception:
             raise DecodeError(
                 "Failed to decode field, non-hex data",
-- 
2.43.0


From 9813449568ea0b94c1d23e2d781e00adc4d0999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 3/8] fix: raise DecodeError when a bitmap enables a field not
 in specification

decode() leaked KeyError. For example, any message that enables one of
the 129-192 fields did that with the included specifications.
---
 iso8583/decoder.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 21432c2..eaec0c2 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -156,7 +156,18 @@ def decode(
         fields.remove(65)
 
     for field in [str(i) for i in sorted(fields)]:
-        idx = _decode_field(s, doc_dec, doc_enc, idx, field, spec[field])
+        try:
+            field_spec = spec[field]
+        except KeyError:
+            raise DecodeError(
+                "Field is not defined in specification",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field,
+            ) from None
+        idx = _decode_field(s, doc_dec, doc_enc, idx, field, field_spec)
 
     if idx != len(s):
         raise DecodeError(
-- 
2.43.0


From 94f051915dba73c26b659c3c9f2191e4b854f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 4/8] fix: decode odd nibble data padded using a lower case pad

Decoded data is upper case, so a lower case pad, such as "f", never
matched. encode() produced messages that decode() could not read.
---
 iso8583/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index eaec0c2..47ccb5b 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -653,11 +653,11 @@ def _remove_pad_field(
     DecodeError
         An error decoding ISO8583 bytearray.
     """
-    pad: str = field_spec.get("left_pad", "")[:1]
+    pad: str = field_spec.get("left_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][:1] == pad:
         return doc_dec[field_key][1:]
 
-    pad = field_spec.get("right_pad", "")[:1]
+    pad = field_spec.get("right_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
         return doc_dec[field_key][:-1]
 
-- 
2.43.0


From 845f357747f9c6ab2a117d8581f6a6a93269acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 5/8] fix: raise EncodeError when encoding a field not in
 specification

encode() leaked KeyError.
---
 iso8583/encoder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 4d79b3e..95bca47 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -157,7 +157,16 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
         fields.remove(65)
 
     for field_key in [str(i) for i in sorted(fields)]:
-        s += _encode_field(doc_dec, doc_enc, field_key, spec[field_key])
+        try:
+            field_spec = spec[field_key]
+        except KeyError:
+            raise EncodeError(
+                "Field is not defined in specification",
+                doc_dec,
+                doc_enc,
+                field_key,
+            ) from None
+        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)
 
     return s, doc_enc
 
-- 
2.43.0


From b4d6d65c310491a8a822ec67822a58e70564cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 6/8] fix: raise EncodeError for numeric keys that are not
 field numbers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

encode() leaked KeyError for keys such as "02" and ValueError for keys
such as "½", and silently dropped "02" if "2" was present as well.
---
 iso8583/encoder.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 95bca47..abaef92 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -93,6 +93,15 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     s += _encode_header(doc_dec, doc_enc, spec)
     s += _encode_type(doc_dec, doc_enc, spec)
 
+    invalid_keys = [k for k in doc_dec.keys() if not _is_valid_key(k)]
+    if invalid_keys:
+        raise EncodeError(
+            f"Dictionary contains invalid fields {invalid_keys}",
+            doc_dec,
+            doc_enc,
+            "p",
+        )
+
     try:
         fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])
     except AttributeError:
@@ -178,6 +187,19 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
 _FieldSpecDict = Mapping[str, Any]
 
 
+def _is_valid_key(key: Any) -> bool:
+    r"""Numeric string key must be a plain field number. `str.isnumeric`
+    and `int` also accept "02", "\u00bd", non-ASCII digits, and so on.
+    """
+    if not isinstance(key, str) or not key.isnumeric():
+        return True
+
+    try:
+        return str(int(key)) == key
+    except ValueError:
+        return False
+
+
 def _encode_header(
     doc_dec: DecodedDict,
     doc_enc: EncodedDict,
-- 
2.43.0


From 98f6436edd3f9c11d0778fa63bb0e5c8d904a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 7/8] fix: raise EncodeError when binary field data is not a
 string

Error handling itself failed with TypeError or UnboundLocalError. Text
fields already raised EncodeError.
---
 iso8583/encoder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index abaef92..f563f98 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -586,6 +586,13 @@ def _encode_bindary_field(
             data_to_encode = field_data
         encoded_data = binascii.a2b_hex(data_to_encode)
     except Exception:
+        if not isinstance(field_data, str):
+            raise EncodeError(
+                "Failed to encode field, invalid data",
+                doc_dec,
+                doc_enc,
+                field_key,
+            ) from None
         if len_count == "nibbles" and len(data_to_encode) % 2 == 1:
             raise EncodeError(
                 "Failed to encode field, odd-length nibble data, specify pad",
-- 
2.43.0


From 23666ae2d4203814a641372317d99633f69e8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 8/8] fix: raise EncodeError for invalid keys that have no repr

---
 iso8583/encoder.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index f563f98..b7f3aa2 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -96,7 +96,7 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     invalid_keys = [k for k in doc_dec.keys() if not _is_valid_key(k)]
     if invalid_keys:
         raise EncodeError(
-            f"Dictionary contains invalid fields {invalid_keys}",
+            f"Dictionary contains invalid fields [{', '.join([_repr_key(k) for k in invalid_keys])}]",
             doc_dec,
             doc_enc,
             "p",
@@ -106,7 +106,7 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
         fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])
     except AttributeError:
         raise EncodeError(
-            f"Dictionary contains invalid fields {[k for k in doc_dec.keys() if not isinstance(k, str)]}",
+            f"Dictionary contains invalid fields [{', '.join([_repr_key(k) for k in doc_dec.keys() if not isinstance(k, str)])}]",
             doc_dec,
             doc_enc,
             "p",
@@ -200,6 +200,16 @@ def _is_valid_key(key: Any) -> bool:
         return False
 
 
+def _repr_key(key: Any) -> str:
+    r"""Not every key has a `repr`, e.g. integers of more than
+    4300 digits and deeply nested tuples do not.
+    """
+    try:
+        return repr(key)
+    except Exception:
+        return f"<{type(key).__name__}>"
+
+
 def _encode_header(
     doc_dec: DecodedDict,
     doc_enc: EncodedDict,
-- 
2.43.0

