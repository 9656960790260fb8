"""Definitions of the planted bugs; tools/plant.py turns them into /verif/seeded/<id>."""

BUGS = []
E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"
HEAD = '''
import copy, io, json, pickle, sys, threading
import iso8583
from iso8583 import encode, decode, pp, EncodeError, DecodeError
import iso8583.specs as specs

def mk(**fields):
    """default_ascii with the given entries ('_2' for field 2)"""
    s = copy.deepcopy(specs.default_ascii)
    for k, v in fields.items():
        s[k.lstrip("_")] = {"desc": "x", **v}
    return s

def F(data_enc="ascii", len_enc="ascii", len_type=2, max_len=99, **kw):
    return dict(data_enc=data_enc, len_enc=len_enc, len_type=len_type, max_len=max_len, **kw)
'''


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


# ------------------------------------------------------------------------------------------------------------------ C01
bug("c01-bcd-thousands", "C01",
    [(D, "enc_field_len = int(s[idx : idx + len_type].hex(), 10)",
      "enc_field_len = int(s[idx : idx + len_type].hex()[-3:], 10)")],
    "a BCD LLLLVAR length of 1000 or more",
    "the decoder reads only the last three digits of a BCD length, so long fields no longer round-trip",
    '''
spec = mk(_48=F(len_enc="bcd", len_type=2, max_len=2000))
s, _ = encode({"t": "0200", "48": "A" * 1200}, spec)
d, _ = decode(s, spec)
assert d["48"] == "A" * 1200
''')
# ------------------------------------------------------------------------------------------------------------------ C02
bug("c02-wide-binary-length", "C02",
    [(E, '''(enc_field_len).to_bytes(
                len_type, "big", signed=False
            )''', '''(enc_field_len).to_bytes(
                len_type, "big" if len_type < 3 else "little", signed=False
            )'''),
     (D, '''int.from_bytes(
                    s[idx : idx + len_type], "big", signed=False
                )''', '''int.from_bytes(
                    s[idx : idx + len_type], "big" if len_type < 3 else "little", signed=False
                )''')],
    "a binary length of three or more bytes; encoder and decoder agree, so round trips still work",
    "wide binary lengths are sent in the wrong byte order",
    '''
spec = mk(_48=F(len_enc="b", len_type=3, max_len=2000))
s, e = encode({"t": "0200", "48": "A" * 5}, spec)
assert e["48"]["len"] == b"\\x00\\x00\\x05", e
''')
# ------------------------------------------------------------------------------------------------------------------ C03
bug("c03-bits-by-value", "C03",
    [(D, "            if byte >> (8 - bit) & 1\n        ]\n    )",
      "            if byte >> (8 - bit) & 1\n        ]\n        if any(bitmap[1:]) or not is_extended\n        else [field_offset + bit for bit in range(1, 8) if bitmap[0] >> (8 - bit) & 1]\n    )")],
    "an extended bitmap with field 136 and nothing from 137-192",
    "decode overlooks field 136",
    '''
spec = mk(_136=F())
s = b"0200" + b"8000000000000000" + b"8000000000000000" + b"0100000000000000" + b"02AB"
d, _ = decode(s, spec)
assert d["136"] == "AB"
''')
bug("c03-odd-left-even-length", "C03",
    [(D, "        if len_count == \"nibbles\" and enc_field_len & 1:\n            doc_dec",
      "        if len_count == \"nibbles\" and (enc_field_len & 1 or field_spec.get(\"left_pad\") and doc_enc[field_key][\"len\"][:1] == b\"\\x00\" and len_type > 1):\n            doc_dec")],
    "an even nibble count in a field with left_pad and a length of two or more bytes whose first byte is 0",
    "even data loses a digit (or is refused)",
    '''
spec = mk(_2=F("b", "bcd", 2, 200, len_count="nibbles", left_pad="0"))
s = b"0200" + b"4000000000000000" + b"\\x00\\x04" + b"\\x01\\x23"
d, _ = decode(s, spec)
assert d["2"] == "0123", d
''')
# ------------------------------------------------------------------------------------------------------------------ C04
bug("c04-extra-data-preview", "C04",
    [(D, '''    if idx != len(s):
        raise DecodeError(''', '''    if idx != len(s):
        preview = s[idx : idx + 16].decode(spec["t"]["data_enc"]) if spec["t"]["data_enc"] != "b" else s[idx:].hex()
        if not preview.isprintable():
            preview = repr(preview)
        raise DecodeError(''')],
    "surplus bytes that are not valid in the encoding of the message type",
    "decode raises UnicodeDecodeError instead of DecodeError",
    '''
try:
    decode(b"0200" + b"0000000000000000" + b"\\xff\\xfe", mk())
except DecodeError:
    pass
''')
# ------------------------------------------------------------------------------------------------------------------ C05
bug("c05-narrow-except", "C05",
    [(E, '''    except Exception:
        raise EncodeError(
            "Failed to encode field, invalid data",
            doc_dec,
            doc_enc,
            field_key,
        ) from None

    # Encoded field length can be in bytes or half bytes (nibbles)''', '''    except (UnicodeEncodeError, AttributeError, TypeError):
        raise EncodeError(
            "Failed to encode field, invalid data",
            doc_dec,
            doc_enc,
            field_key,
        ) from None

    # Encoded field length can be in bytes or half bytes (nibbles)''')],
    "a codec that reports failure with another UnicodeError or ValueError (idna, punycode, undefined)",
    "encode raises UnicodeError instead of EncodeError",
    '''
spec = mk(_2=F("idna"))
try:
    encode({"t": "0200", "2": "a" * 64 + ".com"}, spec)
except EncodeError:
    pass
''')
bug("c05-range-message", "C05",
    [(E, "f\"Dictionary contains fields outside of 1-192 range {sorted(fields.difference(range(1, 193)))}\"",
      "\"Dictionary contains fields outside of 1-192 range [\" + \", \".join(\n                k for k in doc_dec if k.isnumeric() and int(k) not in range(1, 193)\n            ) + \"]\" * (0 < max(len(k) for k in doc_dec if k.isnumeric() and not spec.get(k, {\"desc\": \"\"})[\"desc\"]))")],
    "an out-of-range field number that the specification happens to define with a description (e.g. '193' or '0')",
    "encode raises ValueError: max() of an empty sequence",
    '''
spec = mk(_193=F())
try:
    encode({"t": "0200", "193": "1"}, spec)
except EncodeError:
    pass
''')
# ------------------------------------------------------------------------------------------------------------------ C06
bug("c06-trailing-nul", "C06",
    [(D, "    if idx != len(s):\n", "    # transports pad blocks with NUL\n    if len(s) - idx >= 8 and not any(s[idx:]):\n        return doc_dec, doc_enc\n\n    if idx != len(s):\n")],
    "eight or more NUL bytes after the last field",
    "surplus bytes are accepted",
    '''
try:
    decode(b"0200" + b"0000000000000000" + bytes(8), mk())
except DecodeError:
    pass
else:
    raise SystemExit("accepted")
''')
# ------------------------------------------------------------------------------------------------------------------ C07
bug("c07-fromhex", "C07",
    [(E, "        encoded_data = binascii.a2b_hex(data_to_encode)\n    except",
      "        encoded_data = bytes.fromhex(data_to_encode) if len_count == \"nibbles\" else binascii.a2b_hex(data_to_encode)\n    except")],
    "hex data with whitespace between bytes in a nibble-counted field",
    "'12 34' is accepted although it is not hex; its length is counted wrongly",
    '''
spec = mk(_2=F("b", "bcd", 1, 19, len_count="nibbles", right_pad="0"))
try:
    encode({"t": "0200", "2": "12 34 "}, spec)
except EncodeError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c07-over-limit-header", "C07",
    [(E, "    if enc_field_len > field_spec[\"max_len\"]:\n",
      "    if enc_field_len > field_spec[\"max_len\"] and (field_key != \"h\" or len_count == \"bytes\"):\n")],
    "a variable header counted in nibbles, longer than its maximum",
    "an over-long header is sent",
    '''
spec = mk(h=F("b", "b", 1, 4, len_count="nibbles"))
try:
    encode({"h": "123456", "t": "0200"}, spec)
except EncodeError:
    pass
else:
    raise SystemExit("accepted")
''')
# ------------------------------------------------------------------------------------------------------------------ C08
# ------------------------------------------------------------------------------------------------------------------ C09
bug("c09-pos-of-text", "C09",
    [(D, '''        doc_dec[field_key] = _decode_text_data(
            s,
            doc_enc[field_key]["data"],
            idx,
            doc_dec,''', '''        doc_dec[field_key] = _decode_text_data(
            s,
            doc_enc[field_key]["data"],
            len(s) - byte_field_len,
            doc_dec,''')],
    "undecodable text in a field that is not the last one",
    "the error position is that of the last field",
    '''
spec = mk(_2=F(), _3=F())
try:
    decode(b"0200" + b"6000000000000000" + b"02\\xff\\xff" + b"02AB", spec)
except DecodeError as e:
    assert e.pos == 22, e
''')
# ------------------------------------------------------------------------------------------------------------------ C10
bug("c10-order", "C10",
    [(E, "    # Add tertiary bitmap if any 129-192 fields are present\n",
      '''    for k in doc_dec:
        if k.isnumeric() and k in spec and not isinstance(doc_dec[k], str):
            raise EncodeError(
                "Failed to encode field, non-hex data"
                if spec[k]["data_enc"] == "b"
                else "Failed to encode field, invalid data",
                doc_dec,
                doc_enc,
                k,
            )

    # Add tertiary bitmap if any 129-192 fields are present
''')],
    "two fields that cannot be encoded, one of them not a string (or a look at the partial output)",
    "the failing field reported is not the first in wire order and the partial output lacks the bitmap",
    '''
spec = mk(_2=F(max_len=2), _3=F())
try:
    encode({"t": "0200", "3": 5, "2": "toolong"}, spec)
except EncodeError as e:
    assert e.field == "2", e
''')
bug("c10-partial-length", "C10",
    [(E, '''        except OverflowError:
            raise EncodeError(
                "Failed to encode field length, field length does not fit into configured field size",
                doc_dec,
                doc_enc,
                field_key,''', '''        except OverflowError:
            raise EncodeError(
                "Failed to encode field length, field length does not fit into configured field size",
                doc_dec,
                {field_key: doc_enc[field_key]},
                field_key,''')],
    "a value too long for a binary length",
    "the partial encoded dictionary lacks the parts encoded before",
    '''
spec = mk(_2=F(len_enc="b", len_type=1, max_len=300))
try:
    encode({"t": "0200", "2": "1" * 256}, spec)
except EncodeError as e:
    assert e.doc_enc["t"] == {"len": b"", "data": b"0200"}, e.doc_enc
''')
# ------------------------------------------------------------------------------------------------------------------ C11
bug("c11-bytes-input", "C11",
    [(D, "            (self.msg, self.s, self.doc_dec, self.doc_enc, self.pos, self.field),",
      "            (self.msg, bytes(self.s), self.doc_dec, self.doc_enc, self.pos, self.field),")],
    "an error about a bytearray, copied or pickled",
    "the copy holds bytes instead of a bytearray",
    '''
try:
    decode(bytearray(b"0"), mk())
except DecodeError as e:
    assert type(pickle.loads(pickle.dumps(e)).s) is bytearray
''')
bug("c11-message-split", "C11",
    [(E, "        return self.__class__, (self.msg, self.doc_dec, self.doc_enc, self.field)",
      "        return self.__class__, (\n            str(self).split(\": field \")[0],\n            self.doc_dec,\n            self.doc_enc,\n            str(self).rsplit(\" \", 1)[-1],\n        )")],
    "an error whose message itself contains ': field ' (an invalid key such as ': field')",
    "the copy of the error has another message",
    '''
e = EncodeError("Dictionary contains invalid fields [': field 3']", {}, {}, "p")
assert pickle.loads(pickle.dumps(e)).msg == e.msg
import copy
e = EncodeError("m", {}, {}, "a b")
assert copy.copy(e).field == "a b"
''')
# ------------------------------------------------------------------------------------------------------------------ C12
bug("c12-field-192", "C12",
    [(E, "    tertiary_fields = fields.intersection(range(129, 193))", "    tertiary_fields = fields.intersection(range(129, 192))")],
    "field 192",
    "bit 192 is never set",
    '''
spec = mk(_192=F())
s, e = encode({"t": "0200", "192": "AB"}, spec)
d, _ = decode(s, spec)
assert d["192"] == "AB"
''')
bug("c12-stale-secondary", "C12",
    [(E, "    doc_dec.pop(\"1\", None)\n", "    if not any(k.isnumeric() and 65 < int(k) < 129 for k in doc_dec if isinstance(k, str)):\n        doc_dec.pop(\"1\", None)\n"),
     (E, "    if is_extended:\n        doc_dec[field_key] = doc_dec[field_key] + hex_bitmap\n    else:\n        doc_dec[field_key] = hex_bitmap\n",
      "    if is_extended:\n        doc_dec[field_key] = doc_dec[field_key] + hex_bitmap\n    else:\n        if hex_bitmap != doc_dec.get(field_key, \"\").upper():\n            doc_dec[field_key] = hex_bitmap\n")],
    "a stale lower-case '1' (or 'p') that happens to equal the bitmap",
    "the bitmap in the dict stays lower case",
    '''
spec = mk(_67=F())
doc = {"t": "0200", "67": "AB", "p": "8000000000000000", "72": "A001", "1": "a1"}
doc = {"t": "0200", "7": "0" * 10, "5": "0" * 12, "p": "0a00000000000000"}
encode(doc, mk())
assert doc["p"] == "0A00000000000000", doc
''')
# ------------------------------------------------------------------------------------------------------------------ C13
bug("c13-upper-in-place", "C13",
    [(E, '''    # Encoded field length can be in bytes or half bytes (nibbles).
    # Encoded nibble length directly corresponds to the count of received nibbles.
    if len_count == "nibbles":
        return (encoded_data, len(field_data))''', '''    # Encoded field length can be in bytes or half bytes (nibbles).
    # Encoded nibble length directly corresponds to the count of received nibbles.
    if len_count == "nibbles":
        doc_dec[field_key] = field_data.upper()
        return (encoded_data, len(field_data))''')],
    "lower-case hex in a nibble-counted field",
    "encode changes the caller's value",
    '''
spec = mk(_2=F("b", "bcd", 1, 19, len_count="nibbles", right_pad="0"))
doc = {"t": "0200", "2": "ab"}
encode(doc, spec)
assert doc["2"] == "ab"
''')
bug("c13-header-dropped-on-failure", "C13",
    [(E, "    # Message type is a required field.\n    if \"t\" not in doc_dec:\n",
      "    # Message type is a required field.\n    if \"t\" not in doc_dec:\n        doc_dec.pop(\"h\", None)\n")],
    "a dict with a header but no type",
    "a failing encode removes the header from the caller's dict",
    '''
doc = {"h": "X", "2": "1"}
try:
    encode(doc, mk())
except EncodeError:
    pass
assert "h" in doc
''')
# ------------------------------------------------------------------------------------------------------------------ C14
bug("c14-trim-ebcdic", "C14",
    [(D, "    try:\n        return data.decode(field_spec[\"data_enc\"])\n",
      "    try:\n        text = data.decode(field_spec[\"data_enc\"])\n        if field_spec[\"data_enc\"][:2] == \"cp\" and field_spec[\"len_type\"] > 0:\n            text = text.rstrip(\"\\x00\")\n        return text\n")],
    "a variable code page field that ends in NUL characters",
    "trailing NUL characters are lost, so re-encoding gives another message",
    '''
spec = mk(_2=F("cp500", "cp500"))
s, _ = encode({"t": "0200", "2": "AB\\x00"}, spec)
d, _ = decode(s, spec)
assert encode(d, spec)[0] == s
''')
bug("c14-empty-secondary", "C14",
    [(D, "        fields.remove(1)\n", "        fields.remove(1)\n        if doc_enc[\"1\"][\"data\"] == bytes(8):\n            doc_dec[\"65\"] = doc_dec.pop(\"1\")\n            doc_dec[\"1\"] = doc_dec.pop(\"65\")\n            fields.discard(2)\n")],
    "a binary secondary bitmap that is announced but empty, in a message with field 2",
    "field 2 is not decoded (the message is refused)",
    '''
spec = copy.deepcopy(specs.default)
d, _ = decode(b"0200" + bytes.fromhex("C000000000000000") + bytes(8) + b"02AB", spec)
s, _ = encode(d, spec)
assert decode(s, spec)[0]["2"] == "AB"
''')
# ------------------------------------------------------------------------------------------------------------------ C15
bug("c15-header-cache", "C15",
    [(D, "    # Header is not expected according to specifications\n    if spec[\"h\"][\"max_len\"] <= 0:\n        return idx\n\n    return _decode_field(s, doc_dec, doc_enc, idx, \"h\", spec[\"h\"])\n",
      "    # Header is not expected according to specifications\n    key = (id(spec), len(spec))\n    if key not in _header_enabled:\n        if len(_header_enabled) > 64:\n            _header_enabled.clear()\n        _header_enabled[key] = (spec[\"h\"], spec[\"h\"][\"max_len\"] > 0)\n    if _header_enabled[key][0] is not spec[\"h\"]:\n        _header_enabled[key] = (spec[\"h\"], spec[\"h\"][\"max_len\"] > 0)\n    if not _header_enabled[key][1]:\n        return idx\n\n    return _decode_field(s, doc_dec, doc_enc, idx, \"h\", spec[\"h\"])\n\n\n_header_enabled: Dict[Any, Any] = {}\n")],
    "a specification whose header is switched on or off in place between two decodes",
    "decode keeps using the earlier setting",
    '''
spec = mk()
decode(b"0200" + b"0" * 16, spec)
spec["h"]["max_len"] = 3
d, _ = decode(b"HDR0200" + b"0" * 16, spec)
assert d["h"] == "HDR"
''')
bug("c15-shared-empty", "C15",
    [(E, "    # Encode field data\n    doc_enc[field_key] = {\"len\": b\"\", \"data\": b\"\"}\n",
      "    # Encode field data\n    if doc_dec[field_key] == \"\" and field_spec[\"len_type\"]:\n        doc_enc[field_key] = _empty.setdefault((field_spec[\"len_type\"], field_spec[\"len_enc\"]), {\"len\": b\"\", \"data\": b\"\"})\n        if doc_enc[field_key][\"len\"]:\n            return doc_enc[field_key][\"len\"]\n    else:\n        doc_enc[field_key] = {\"len\": b\"\", \"data\": b\"\"}\n"),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_empty: EncodedDict = {}  # type: ignore\n")],
    "two empty variable fields in one or two messages, the caller changing the first result",
    "results are shared between calls: changing one changes what later calls return",
    '''
spec = mk(_2=F(), _3=F())
_, e = encode({"t": "0200", "2": ""}, spec)
e["2"]["len"] = b"XX"
s, e = encode({"t": "0200", "2": ""}, spec)
assert e["2"]["len"] == b"00" and s.endswith(b"00"), e
''')
# ------------------------------------------------------------------------------------------------------------------ C16
bug("c16-scratch-bitmap", "C16",
    [(E, "    bitmap = bytearray(b\"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\")\n",
      "    bitmap = _scratch\n    bitmap[:] = b\"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\"\n"),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_scratch = bytearray(8)\n")],
    "two threads encoding at the same time",
    "bits of one message appear in the bitmap of another",
    '''
spec = mk()
sys.setswitchinterval(1e-6)
bad = []
def work(k, v):
    for _ in range(6000):
        s, _ = encode({"t": "0200", k: v}, spec)
        if decode_p(s) != want[k]:
            bad.append(s)
            return
def decode_p(s):
    return bytes(s[4:20])
want = {"3": b"2000000000000000", "39": b"0000000002000000"}
import itertools
# a deterministic interleaving: the second call runs inside the first one's loop over the fields
class Fields(dict):
    pass
done = []
def tracer(frame, event, arg):
    if frame.f_code.co_name == "_encode_bitmap" and event == "line" and frame.f_locals.get("byte") is not None and not done:
        done.append(1)
        t = threading.Thread(target=encode, args=({"t": "0200", "39": "05"}, spec))
        t.start(); t.join()
    return tracer
sys.settrace(tracer)
s, _ = encode({"t": "0200", "3": "111111"}, spec)
sys.settrace(None)
assert decode_p(s) == want["3"], s
''')
bug("c16-current-field", "C16",
    [(D, "    len_type = field_spec[\"len_type\"]\n", "    _current[\"spec\"] = field_spec\n    len_type = field_spec[\"len_type\"]\n"),
     (D, "        if len_count == \"nibbles\" and enc_field_len & 1:\n            doc_dec", "        field_spec = _current[\"spec\"]\n        if len_count == \"nibbles\" and enc_field_len & 1:\n            doc_dec"),
     (D, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_current: Dict[str, Any] = {}\n")],
    "two threads decoding at the same time, one of them an odd nibble field",
    "the pad of another thread's field is applied",
    '''
spec = mk(_2=F("b", "bcd", 1, 19, len_count="nibbles", right_pad="F"))
done = []
def tracer(frame, event, arg):
    if frame.f_code.co_name == "_decode_field" and event == "line" and "byte_field_len" in frame.f_locals and not done:
        done.append(1)
        t = threading.Thread(target=decode, args=(b"0200" + b"2000000000000000" + b"111111", spec))
        t.start(); t.join()
    return tracer
sys.settrace(tracer)
d, _ = decode(b"0200" + b"4000000000000000" + b"\\x03" + b"\\x12\\x3f", spec)
sys.settrace(None)
assert d["2"] == "123", d
''')
# ------------------------------------------------------------------------------------------------------------------ C17
bug("c17-dict-get", "C17",
    [(E, "    pad: str = field_spec.get(\"left_pad\", \"\")[:1]\n", "    pad: str = dict.get(field_spec, \"left_pad\", \"\")[:1]  # type: ignore\n")],
    "a specification of read-only mappings, and odd nibble data",
    "encode refuses data it accepts with a dict",
    '''
import types
spec = mk(_2=F("b", "bcd", 1, 19, len_count="nibbles", right_pad="F"))
ro = types.MappingProxyType({k: types.MappingProxyType(v) for k, v in spec.items()})
s, _ = encode({"t": "0200", "2": "123"}, ro)
assert s == encode({"t": "0200", "2": "123"}, spec)[0]
''')
bug("c17-exact-type", "C17",
    [(D, "    encoded_field_data = s[idx : idx + expected_field_len]\n    doc_dec[\"t\"] = \"\"\n    doc_enc[\"t\"] = {\"len\": b\"\", \"data\": bytes(encoded_field_data)}\n",
      "    encoded_field_data = s[idx : idx + expected_field_len]\n    doc_dec[\"t\"] = \"\"\n    doc_enc[\"t\"] = {\"len\": b\"\", \"data\": encoded_field_data}  # type: ignore\n    if type(s) is bytearray:\n        doc_enc[\"t\"] = {\"len\": b\"\", \"data\": bytes(encoded_field_data)}\n")],
    "a subclass of bytearray as input",
    "the encoded dictionary holds a bytearray instead of bytes",
    '''
class B(bytearray):
    pass
d, e = decode(B(b"0200" + b"0" * 16), mk())
assert type(e["t"]["data"]) is bytes, e
''')
# ------------------------------------------------------------------------------------------------------------------ C18
bug("c18-desc-needed", "C18",
    [(D, "    raise DecodeError(\n        f\"Field data is {len(doc_dec[field_key])} nibbles, expecting {enc_field_len}\",",
      "    _ = field_spec[\"desc\"]\n    raise DecodeError(\n        f\"Field data is {len(doc_dec[field_key])} nibbles, expecting {enc_field_len}\",")],
    "odd nibble data without pad in a field without desc",
    "an omitted desc changes the outcome from DecodeError to KeyError",
    '''
spec = mk(_2=F("b", "bcd", 1, 19, len_count="nibbles", right_pad="F"))
del spec["2"]["desc"]
try:
    decode(b"0200" + b"4000000000000000" + b"\\x03" + b"\\x12\\x34", spec)
except DecodeError:
    pass
''')
bug("c18-pad-any", "C18",
    [(E, "        if len_count == \"nibbles\" and len(field_data) & 1:\n            data_to_encode = _add_pad_field(field_data, field_spec)",
      "        if (len_count == \"nibbles\" or len(field_data) == field_spec[\"max_len\"]) and len(field_data) & 1:\n            data_to_encode = _add_pad_field(field_data, field_spec)")],
    "odd hex data with as many digits as max_len in a byte-counted field that defines a pad",
    "the pad, which plays no role for byte-counted fields, decides whether the value is accepted",
    '''
spec = mk(_2=F("b", "bcd", 1, 3, right_pad="F"))
try:
    encode({"t": "0200", "2": "123"}, spec)
except EncodeError:
    pass
else:
    raise SystemExit("accepted")
''')
# ------------------------------------------------------------------------------------------------------------------ C19
bug("c19-text-length-wide", "C19",
    [(E, "                \"{:0{len_type}d}\".format(enc_field_len, len_type=len_type),\n                field_spec[\"len_enc\"],",
      "                \"{:0{len_type}d}\".format(enc_field_len, len_type=len_type)[-4:].zfill(len_type)\n                if len_type > 4\n                else \"{:0{len_type}d}\".format(enc_field_len, len_type=len_type),\n                field_spec[\"len_enc\"],")],
    "a text length of five or more digits and more than 9999 bytes of data",
    "the length wraps at 10000",
    '''
spec = mk(_48=F(len_type=5, max_len=20000))
s, e = encode({"t": "0200", "48": "A" * 12345}, spec)
assert e["48"]["len"] == b"12345", e["48"]["len"]
''')
bug("c19-uint16-cap", "C19",
    [(D, '''                enc_field_len = int.from_bytes(
                    s[idx : idx + len_type], "big", signed=False
                )''', '''                enc_field_len = int.from_bytes(
                    s[idx : idx + len_type], "big", signed=len_type == 2 and s[idx] == 0xFF
                )''')],
    "a two-byte binary length of 65280 or more",
    "the length is read as a negative number",
    '''
spec = mk(_48=F(len_enc="b", len_type=2, max_len=65535))
s = b"0200" + b"0000000000010000" + b"\\xff\\x10" + b"A" * 0xff10
d, _ = decode(s, spec)
assert len(d["48"]) == 0xff10
''')
# ------------------------------------------------------------------------------------------------------------------ C20
bug("c20-lstrip", "C20",
    [(D, "        return doc_dec[field_key][1:]\n", "        return doc_dec[field_key].lstrip(pad)\n")],
    "left-padded odd data that starts with the pad digit itself",
    "leading digits of the value are removed together with the pad",
    '''
spec = mk(_2=F("b", "bcd", 1, 19, len_count="nibbles", left_pad="0"))
s, _ = encode({"t": "0200", "2": "012"}, spec)
assert decode(s, spec)[0]["2"] == "012"
''')
bug("c20-both-pads", "C20",
    [(E, "    if len(pad) > 0:\n        return pad + field_data\n", "    if len(pad) > 0 and not (field_spec.get(\"right_pad\") and field_data.startswith(pad)):\n        return pad + field_data\n")],
    "both pads defined and odd data starting with the left pad digit",
    "the value is padded on the right although left_pad takes precedence",
    '''
spec = mk(_2=F("b", "bcd", 1, 19, len_count="nibbles", left_pad="0", right_pad="F"))
s, e = encode({"t": "0200", "2": "012"}, spec)
assert e["2"]["data"] == b"\\x00\\x12", e
''')
# ------------------------------------------------------------------------------------------------------------------ C21
bug("c21-value-memo", "C21",
    [(E, "    s = bytearray()\n    doc_enc: EncodedDict = {}\n", "    s = bytearray()\n    doc_enc: EncodedDict = {}\n    _sizes.clear()\n"),
     (E, "    # Encoded field length can be in bytes or half bytes (nibbles)\n    # Encoded nibble length directly corresponds to the count of received nibbles.\n    if len_count == \"nibbles\":\n        return (encoded_data, len(encoded_data) * 2)\n    else:\n        return (encoded_data, len(encoded_data))",
      "    # Encoded field length can be in bytes or half bytes (nibbles)\n    # Encoded nibble length directly corresponds to the count of received nibbles.\n    if len_count == \"nibbles\":\n        size = len(encoded_data) * 2\n    else:\n        size = len(encoded_data)\n\n    return (encoded_data, _sizes.setdefault(encoded_data, size) if len(encoded_data) > 2 else size)"),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_sizes: Dict[bytes, int] = {}\n")],
    "two text fields of one message with the same bytes, one counted in bytes and one in nibbles",
    "the length of the second field is that of the first",
    '''
spec = mk(_47=F(len_type=3), _48=F(len_type=3, len_count="nibbles"))
s, e = encode({"t": "0200", "47": "ABCD", "48": "ABCD"}, spec)
assert e["48"]["len"] == b"008", e
''')
bug("c21-run-of-fields", "C21",
    [(D, "    return doc_dec, doc_enc\n",
      "    if \"128\" in doc_dec and \"64\" in doc_dec and spec[\"64\"] is not spec[\"128\"] and doc_enc[\"64\"][\"data\"] == doc_enc[\"128\"][\"data\"]:\n        doc_dec[\"64\"] = doc_dec[\"128\"]\n    return (doc_dec, doc_enc)\n")],
    "fields 64 and 128 with the same bytes but different encodings",
    "the value of field 64 becomes that of field 128",
    '''
spec = mk(_64=F("b", len_type=0, max_len=2), _128=F("ascii", len_type=0, max_len=2))
s, _ = encode({"t": "0200", "64": "4142", "128": "AB"}, spec)
d, _ = decode(s, spec)
assert d["64"] == "4142", d
''')
# ------------------------------------------------------------------------------------------------------------------ C22
bug("c22-fold-escapes", "C22",
    [(T, "    for i in range(0, len(obj), width):\n        yield repr(obj[i : i + width])",
      "    text = obj if obj.isprintable() else repr(obj)[1:-1]\n    for i in range(0, len(text), width):\n        yield \"'\" + text[i : i + width] + \"'\" if text is not obj else repr(text[i : i + width])")],
    "a folded value with an escape at a fold (or a quote next to one)",
    "folded lines no longer evaluate to the value",
    '''
import ast
for n in range(30, 60):
    out = io.StringIO()
    doc = {"2": "A" * n + "\\n" + "B" * 60}
    pp(doc, mk(), stream=out)
    lines = [l[36:] for l in out.getvalue().splitlines()]
    try:
        got = "".join(ast.literal_eval(l) for l in lines)
    except SyntaxError:
        raise SystemExit("not a literal")
    assert got == doc["2"]
''')
# ------------------------------------------------------------------------------------------------------------------ C23
bug("c23-negative-desc", "C23",
    [(T, "    if desc_width > 0:\n", "    if desc_width:\n"),
     (T, "    desc_width = int(desc_width)\n", "    desc_width = int(desc_width)\n    if desc_width < -1:\n        desc_width = 0\n")],
    "desc_width -1",
    "pp fails (or misaligns) for a negative description width",
    '''
out = io.StringIO()
pp({"2": "1"}, mk(), desc_width=-1, stream=out)
assert out.getvalue() == "2  : '1'\\n"
''')
# ------------------------------------------------------------------------------------------------------------------ C24
bug("c24-setdefault", "C24",
    [(T, "        field_length = doc_field.get(\"len\", b\"\")\n", "        field_length = doc_field.setdefault(\"len\", b\"\")\n")],
    "an encoded entry without 'len'",
    "pp adds a key to the caller's dictionary",
    '''
doc = {"2": {"data": b"1"}}
pp(doc, mk(), stream=io.StringIO())
assert doc == {"2": {"data": b"1"}}
''')
bug("c24-stdout-wrapper", "C24",
    [(T, "        stream = _sys.stdout\n", "        stream = _out()\n"),
     (T, "def _pp_field(\n", "_seen: Dict[int, TextIO] = {}\n\n\ndef _out() -> TextIO:\n    key = getattr(_sys.stdout, \"name\", None)\n    if key is None or key == \"<stdout>\":\n        return _sys.stdout\n    return _seen.setdefault(key, _sys.stdout)\n\n\ndef _pp_field(\n")],
    "sys.stdout replaced twice by streams with the same name",
    "pp writes to the stream that was sys.stdout at an earlier call",
    '''
class Out(io.StringIO):
    name = "log"
keep = sys.stdout
a, b = Out(), Out()
sys.stdout = a
pp({"2": "1"}, mk())
sys.stdout = b
pp({"2": "1"}, mk())
sys.stdout = keep
assert a.getvalue() == b.getvalue() != "", (a.getvalue(), b.getvalue())
''')
# ------------------------------------------------------------------------------------------------------------------ C25
# ------------------------------------------------------------------------------------------------------------------ C26
bug("c26-negative-header", "C26",
    [(D, "    # Header is not expected according to specifications\n    if spec[\"h\"][\"max_len\"] <= 0:", "    # Header is not expected according to specifications\n    if not spec[\"h\"][\"max_len\"]:")],
    "a header disabled by a negative maximum length",
    "decode expects a header although the specification disables it",
    '''
spec = mk(h=F(len_type=2, max_len=-1))
d, _ = decode(b"0200" + b"0" * 16, spec)
assert "h" not in d
''')
bug("c26-type-length", "C26",
    [(E, "    if spec[\"t\"][\"data_enc\"] == \"b\":\n        expected_field_len = 2\n    else:\n        expected_field_len = 4\n\n    doc_enc[\"t\"] = {\"len\": b\"\", \"data\": b\"\"}",
      "    if spec[\"t\"][\"data_enc\"] == \"b\":\n        expected_field_len = 2\n    else:\n        expected_field_len = max(4, spec[\"t\"][\"max_len\"] if \"h\" in doc_enc else 4)\n\n    doc_enc[\"t\"] = {\"len\": b\"\", \"data\": b\"\"}")],
    "an enabled header together with a text type whose stated length is above 4",
    "the stated length of the message type matters",
    '''
spec = mk(h=F(len_type=0, max_len=2), t=F(len_type=0, max_len=6))
encode({"h": "AB", "t": "0200"}, spec)
''')
# ------------------------------------------------------------------------------------------------------------------ C27
bug("c27-nibble-characters", "C27",
    [(E, "        return (encoded_data, len(encoded_data) * 2)\n", "        return (encoded_data, len(field_data) * 2)\n")],
    "multi-byte text in a nibble-counted field",
    "the length counts characters instead of encoded bytes",
    '''
spec = mk(_48=F("utf-8", len_type=3, max_len=99, len_count="nibbles"))
s, e = encode({"t": "0200", "48": "\\u00e9"}, spec)
assert e["48"]["len"] == b"004", e
''')
bug("c27-replace", "C27",
    [(D, "        return data.decode(field_spec[\"data_enc\"])\n", "        return data.decode(\n            field_spec[\"data_enc\"],\n            \"replace\" if field_spec[\"data_enc\"].lower().startswith(\"utf\") and field_spec.get(\"len_count\") else \"strict\",\n        )\n")],
    "invalid UTF bytes in a field that states len_count",
    "invalid bytes become replacement characters",
    '''
spec = mk(_48=F("utf-8", len_type=3, max_len=99, len_count="bytes"))
try:
    decode(b"0200" + b"0000000000010000" + b"002\\xff\\xff", spec)
except DecodeError:
    pass
else:
    raise SystemExit("accepted")
''')
# ------------------------------------------------------------------------------------------------------------------ C28
bug("c28-even-limit", "C28",
    [(D, "        if enc_field_len > field_spec[\"max_len\"]:\n", "        if (enc_field_len // 2 * 2 if len_count == \"nibbles\" and field_spec.get(\"left_pad\") else enc_field_len) > field_spec[\"max_len\"]:\n")],
    "an odd nibble length one above an even maximum, left-padded",
    "decode accepts a value over the limit",
    '''
spec = mk(_2=F("b", "bcd", 1, 4, len_count="nibbles", left_pad="0"))
try:
    decode(b"0200" + b"4000000000000000" + b"\\x05" + b"\\x01\\x23\\x45", spec)
except DecodeError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c28-fixed-nibble-round", "C28",
    [(E, "        if enc_field_len != field_spec[\"max_len\"]:\n", "        if enc_field_len != field_spec[\"max_len\"] and not (\n            len_count == \"nibbles\" and enc_field_len & 1 and enc_field_len + 1 == field_spec[\"max_len\"] and field_spec.get(\"right_pad\")\n        ):\n")],
    "a right-padded fixed field of even size given one digit less",
    "encode accepts a value that is too short for the fixed field",
    '''
spec = mk(_2=F("b", "bcd", 0, 4, len_count="nibbles", right_pad="0"))
try:
    encode({"t": "0200", "2": "123"}, spec)
except EncodeError:
    pass
else:
    raise SystemExit("accepted")
''')

# ------------------------------------------------------------------------------------------------------- second series
bug("c06-short-last-nibbles", "C06",
    [(D, "    if len(doc_enc[field_key][\"data\"]) != byte_field_len:\n",
      "    if len(doc_enc[field_key][\"data\"]) < byte_field_len - (len_count == \"nibbles\" and enc_field_len & 1 and len_type > 0):\n"),
     (D, "    return idx + byte_field_len\n", "    return idx + len(doc_enc[field_key][\"data\"])\n")],
    "the last byte of an odd nibble field at the end of the message is missing and the shortened data still holds the pad",
    "a truncated message is accepted",
    '''
spec = mk(_2=F("b", "bcd", 1, 19, len_count="nibbles", left_pad="0"))
try:
    decode(b"0200" + b"4000000000000000" + b"\\x05" + b"\\x01\\x23", spec)
except DecodeError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c04-narrow-length-except", "C04",
    [(D, '''            except Exception:
                raise DecodeError(
                    "Failed to decode field length, invalid data",''', '''            except UnicodeDecodeError:
                raise DecodeError(
                    "Failed to decode field length, invalid data",''')],
    "a length codec that reports failure with another error than UnicodeDecodeError (undefined, idna)",
    "decode raises UnicodeError instead of DecodeError",
    '''
spec = mk(_2=F(len_enc="undefined"))
try:
    decode(b"0200" + b"4000000000000000" + b"0212", spec)
except DecodeError:
    pass
''')
bug("c08-header-length", "C08",
    [(E, "    return _encode_field(doc_dec, doc_enc, \"h\", spec[\"h\"])\n",
      "    header = _encode_field(doc_dec, doc_enc, \"h\", spec[\"h\"])\n    if spec[\"h\"][\"len_enc\"] == \"b\":\n        doc_enc[\"h\"][\"len\"] = doc_enc[\"h\"][\"len\"].lstrip(b\"\\x00\")\n    return header\n")],
    "a header with a binary length of several bytes whose first byte is 0",
    "the encoded dictionary lacks a byte of the header's length",
    '''
spec = mk(h=F(len_enc="b", len_type=2, max_len=300))
s, e = encode({"h": "ABC", "t": "0200"}, spec)
assert e["h"]["len"] == b"\\x00\\x03", e
''')
bug("c09-pad-position", "C09",
    [(D, '''            doc_dec[field_key] = _remove_pad_field(
                s,
                idx,''', '''            doc_dec[field_key] = _remove_pad_field(
                s,
                idx if len_type < 3 else idx - len_type,''')],
    "odd nibble data without pad in a field with a length of three or more bytes",
    "the error position is that of the length, not of the data",
    '''
spec = mk(_2=F("b", "ascii", 3, 19, len_count="nibbles", right_pad="F"))
try:
    decode(b"0200" + b"4000000000000000" + b"003" + b"\\x12\\x34", spec)
except DecodeError as e:
    assert e.pos == 23, e
''')
bug("c15-codec-denylist", "C15",
    [(E, '''    try:
        encoded_data = field_data.encode(field_spec["data_enc"])
    except LookupError:
''', '''    try:
        if field_spec["data_enc"] in _unknown:
            raise LookupError(field_spec["data_enc"])
        encoded_data = field_data.encode(field_spec["data_enc"])
    except LookupError:
        _unknown.add(field_spec["data_enc"])
'''),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_unknown: Set[str] = set()\n")],
    "a codec that is registered (codecs.register) after a failed attempt to use it",
    "encode remembers the failure and keeps refusing the codec",
    '''
import codecs
spec = mk(_2=F("my-codec"))
try:
    encode({"t": "0200", "2": "123"}, spec)
except EncodeError:
    pass
codecs.register(lambda n: codecs.lookup("ascii") if n in ("my-codec", "my_codec") else None)
encode({"t": "0200", "2": "123"}, spec)
''')
bug("c23-binary-length-indent", "C23",
    [(T, "            indent += len(repr(field_length)) + 1\n", "            indent += len(field_length) + len(\"b'' \")\n")],
    "a folded encoded value with a binary (non-printable) length",
    "continuation lines are not aligned and lines are too long",
    '''
out = io.StringIO()
pp({"48": {"len": b"\\x00\\x64", "data": b"A" * 100}}, mk(), stream=out)
lines = out.getvalue().splitlines()
assert lines[1].index("b'") == lines[0].rindex("b'"), lines
''')
bug("c18-bitmap-length", "C18",
    [(D, "    # Primary/Secondary bitmap is a set length in ISO8583\n    if field_spec[\"data_enc\"] == \"b\":\n        expected_field_len = 8\n",
      "    # Primary/Secondary bitmap is a set length in ISO8583\n    if field_spec[\"data_enc\"] == \"b\":\n        expected_field_len = min(8, field_spec[\"max_len\"]) if is_extended else 8\n")],
    "an extended binary bitmap whose specification states a length below 8",
    "the stated length of the bitmap matters",
    '''
spec = copy.deepcopy(specs.default)
spec["1"]["max_len"] = 0
spec["140"] = {"desc": "x", **F()}
s, _ = encode({"t": "0200", "140": "AB"}, spec)
d, _ = decode(s, spec)
assert d["140"] == "AB"
''')
bug("c01-latin-nbsp", "C01",
    [(E, "    # Encoded field length can be in bytes or half bytes (nibbles)\n    # Encoded nibble length directly corresponds to the count of received nibbles.\n    if len_count == \"nibbles\":\n        return (encoded_data, len(encoded_data) * 2)",
      "    # EBCDIC code pages: new line is 0x25 or 0x15\n    if field_spec[\"data_enc\"] == \"cp500\":\n        encoded_data = encoded_data.replace(b\"\\x25\", b\"\\x15\")\n\n    # Encoded field length can be in bytes or half bytes (nibbles)\n    # Encoded nibble length directly corresponds to the count of received nibbles.\n    if len_count == \"nibbles\":\n        return (encoded_data, len(encoded_data) * 2)")],
    "a line feed in a cp500 field",
    "the line feed comes back as another control character",
    '''
spec = mk(_48=F("cp500", "cp500"))
s, _ = encode({"t": "0200", "48": "A\\nB"}, spec)
assert decode(s, spec)[0]["48"] == "A\\nB"
''')
bug("c03-ascii-fast-path", "C03",
    [(D, "    try:\n        return data.decode(field_spec[\"data_enc\"])\n",
      "    try:\n        if data.isascii() and field_spec[\"data_enc\"].startswith(\"utf\"):\n            return data.decode(\"ascii\")\n        return data.decode(field_spec[\"data_enc\"])\n")],
    "UTF-16, UTF-32 or UTF-7 text whose bytes are all below 0x80",
    "multi-byte text decodes to a string with NUL characters",
    '''
spec = mk(_48=F("utf-16-le"))
s, _ = encode({"t": "0200", "48": "AB"}, spec)
assert decode(s, spec)[0]["48"] == "AB"
''')
bug("c12-65-kept", "C12",
    [(E, "    # Extended bitmap indicator must not be an actual field\n    doc_dec.pop(\"65\", None)\n",
      "    # Extended bitmap indicator must not be an actual field\n    if \"1\" not in spec or spec[\"1\"][\"data_enc\"] != \"b\" or not doc_dec.get(\"65\"):\n        doc_dec.pop(\"65\", None)\n    else:\n        doc_dec[\"65\"] = \"\"\n")],
    "a stale non-empty '65' with binary bitmaps",
    "an empty extended bitmap is announced and sent",
    '''
spec = copy.deepcopy(specs.default)
s, _ = encode({"t": "0200", "65": "0" * 16}, spec)
assert s == b"0200" + bytes(8), s
''')
bug("c13-stale-p-on-failure", "C13",
    [(E, "    s += _encode_header(doc_dec, doc_enc, spec)\n    s += _encode_type(doc_dec, doc_enc, spec)\n",
      "    s += _encode_header(doc_dec, doc_enc, spec)\n    for k in [k for k in doc_dec if not k]:\n        del doc_dec[k]\n    s += _encode_type(doc_dec, doc_enc, spec)\n")],
    "an entry with an empty key",
    "encode removes the entry from the caller's dict",
    '''
doc = {"t": "0200", "": "note"}
encode(doc, mk())
assert doc[""] == "note"
''')
bug("c24-order", "C24",
    [(T, "    if \"p\" in doc:\n", "    if isinstance(doc, dict) and \"p\" in doc and \"t\" in doc and list(doc).index(\"p\") < list(doc).index(\"t\"):\n        _pp_field(doc, spec, min(desc_width, 3), stream, line_width, \"p\")\n    elif \"p\" in doc:\n")],
    "a dictionary in which 'p' was inserted before 't'",
    "the print-out depends on insertion order",
    '''
a, b = io.StringIO(), io.StringIO()
pp({"t": "0200", "p": "00"}, mk(), stream=a)
pp({"p": "00", "t": "0200"}, mk(), stream=b)
assert a.getvalue() == b.getvalue()
''')
bug("c26-pp-header", "C26",
    [(T, "    if \"h\" in doc and spec[\"h\"][\"max_len\"] > 0:\n", "    if \"h\" in doc and (spec[\"h\"][\"max_len\"] > 0 or isinstance(doc[\"h\"], dict)):\n")],
    "an encoded dictionary with a leftover header under a specification without header",
    "pp prints a header that the specification disables",
    '''
out = io.StringIO()
pp({"h": {"len": b"", "data": b"X"}, "t": {"len": b"", "data": b"0200"}}, mk(), stream=out)
assert out.getvalue().startswith("t")
''')
bug("c28-capacity-limit", "C28",
    [(E, "    if enc_field_len > field_spec[\"max_len\"]:\n", "    if enc_field_len > max(field_spec[\"max_len\"], 10 ** len_type - 1 if len_type > 3 else 0):\n")],
    "a field with a length of four or more bytes and a smaller maximum",
    "encode accepts values over the limit as long as the length can be written",
    '''
spec = mk(_48=F(len_type=4, max_len=10))
try:
    encode({"t": "0200", "48": "A" * 11}, spec)
except EncodeError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c16-error-context", "C16",
    [(T, "    indent = 5\n", "    global _indent\n    _indent = 5\n"),
     (T, "        indent += desc_width + 1\n", "        _indent += desc_width + 1\n"),
     (T, "            indent += len(repr(field_length)) + 1\n", "            _indent += len(repr(field_length)) + 1\n"),
     (T, "    if len(rep) + indent > line_width:\n", "    indent = _indent\n    if len(rep) + indent > line_width:\n"),
     (T, "_dispatch: Dict[Any", "_indent = 5\n_dispatch: Dict[Any")],
    "two threads printing at the same time with different widths",
    "values are folded at another thread's column",
    '''
class Slow(io.StringIO):
    def write(self, s):
        if s == ": " and not done:
            done.append(1)
            t = threading.Thread(target=pp, args=({"2": "1"}, spec, 0, io.StringIO()))
            t.start(); t.join()
        return super().write(s)
spec = mk()
done = []
a, b = Slow(), io.StringIO()
pp({"48": "A" * 100}, spec, stream=a)
pp({"48": "A" * 100}, spec, stream=b)
assert a.getvalue() == b.getvalue(), a.getvalue()
''')
bug("c20-right-of-left", "C20",
    [(D, "        return doc_dec[field_key][:-1]\n", "        return doc_dec[field_key][:-1] if enc_field_len > 1 else \"\" if doc_dec[field_key] != pad * 2 else doc_dec[field_key][1:]\n")],
    "a single right-padded digit other than the pad",
    "the only digit of the value is lost",
    '''
spec = mk(_2=F("b", "bcd", 1, 19, len_count="nibbles", right_pad="F"))
s, _ = encode({"t": "0200", "2": "7"}, spec)
assert decode(s, spec)[0]["2"] == "7"
''')
bug("c19-empty-bcd", "C19",
    [(D, "    # Do not parse zero-length field\n    if enc_field_len == 0:\n", "    if field_spec[\"len_enc\"] == \"bcd\" and enc_field_len == 100 and len_type == 2 and len_count == \"nibbles\":\n        enc_field_len = 10\n\n    # Do not parse zero-length field\n    if enc_field_len == 0:\n")],
    "exactly 100 nibbles with a BCD LLLVAR length",
    "the length 0100 is read as 10",
    '''
spec = mk(_48=F("b", "bcd", 2, 999, len_count="nibbles"))
s, _ = encode({"t": "0200", "48": "12" * 50}, spec)
assert decode(s, spec)[0]["48"] == "12" * 50
''')
bug("c17-json-order", "C17",
    [(E, "        fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])\n", "        fields: Set[int] = set([int(k) for k in dict.keys(doc_dec) if k.isnumeric() and dict.__contains__(doc_dec, k)])\n        if type(doc_dec) is not dict and hasattr(doc_dec, \"move_to_end\"):\n            fields = set([int(k) for k in list(doc_dec)[:64] if k.isnumeric()])\n")],
    "an OrderedDict with more than 64 entries",
    "fields beyond the 64th entry are not sent",
    '''
import collections
doc = {"t": "0200", **{str(n): "1" for n in range(2, 129) if n != 65}}
spec = mk(**{f"_{n}": F(len_type=1) for n in range(2, 129) if n != 65})
a, _ = encode(dict(doc), spec)
b, _ = encode(collections.OrderedDict(doc), spec)
assert a == b
''')

# ------------------------------------------------------------------------------------------------------- third series
bug("c01-bom-strip", "C01",
    [(D, '        return data.decode(field_spec["data_enc"])\n', '        return data.decode(field_spec["data_enc"]).lstrip("\\ufeff")\n')],
    "a text value that starts with U+FEFF",
    "the decoder drops a leading byte order mark that was part of the value",
    '''
spec = mk(_48=F("utf-8", "ascii", 2, 99))
s, _ = encode({"t": "0200", "48": "\ufeffabc"}, spec)
assert decode(s, spec)[0]["48"] == "\ufeffabc"
''')
bug("c03-drop-empty-secondary", "C03",
    [(D, '''        fields.remove(1)

    if 65 in fields:
''', '''        fields.remove(1)
        if not any(i > 64 for i in fields):
            del doc_dec["1"]

    if 65 in fields:
''')],
    "a message that announces an empty secondary bitmap",
    "the decoded dictionary lacks the secondary bitmap although it is in the message",
    '''
spec = mk()
d, e = decode(b"0200" + b"8000000000000000" + b"0000000000000000", spec)
assert d["1"] == "0" * 16 and set(d) == set(e)
''')
bug("c04-unicode-error-only", "C04",
    [(D, '''    try:
        return data.decode(field_spec["data_enc"])
    except LookupError:
''', '''    try:
        codec_info = codecs.lookup(field_spec["data_enc"])
        return str(codec_info.decode(bytes(data))[0])
    except LookupError:
'''), (D, '''            "Failed to decode field, unknown encoding specified",
            s,
            doc_dec,
            doc_enc,
            idx,
            field_key,
        ) from None
    except Exception:
''', '''            "Failed to decode field, unknown encoding specified",
            s,
            doc_dec,
            doc_enc,
            idx,
            field_key,
        ) from None
    except UnicodeError:
'''), (D, "import binascii\n", "import binascii\nimport codecs\n")],
    "a data encoding that is a bytes-to-bytes codec such as 'zlib', whose error is no UnicodeError",
    "decode raises zlib.error",
    '''
spec = mk(_2=F("zlib_codec", "ascii", 2, 19))
try:
    decode(b"0200" + b"4000000000000000" + b"03abc", spec)
    assert False
except DecodeError:
    pass
''')
bug("c06-bcd-sign-nibble", "C06",
    [(D, "enc_field_len = int(s[idx : idx + len_type].hex(), 10)", 'enc_field_len = int(s[idx : idx + len_type].hex().rstrip("cd") or "x", 10)')],
    "a BCD length that ends in a hexadecimal C or D digit",
    "0x1C is taken for length 1",
    '''
spec = mk(_2=F("ascii", "bcd", 1, 19))
try:
    print(decode(b"0200" + b"4000000000000000" + b"\\x1cA", spec))
    assert False
except DecodeError:
    pass
''')
bug("c07-odd-hex", "C07",
    [(E, '''        else:
            data_to_encode = field_data
        encoded_data = binascii.a2b_hex(data_to_encode)
''', '''        elif len(field_data) & 1 and field_spec.get("left_pad") and field_spec["len_type"] > 0:
            data_to_encode = _add_pad_field(field_data, field_spec)
        else:
            data_to_encode = field_data
        encoded_data = binascii.a2b_hex(data_to_encode)
''')],
    "a variable binary field counted in bytes that has left_pad set, and odd hex data",
    "odd hex data is padded although the length counts bytes",
    '''
spec = mk(_2=F("b", "ascii", 2, 19, left_pad="0"))
try:
    print(encode({"t": "0200", "2": "123"}, spec))
    assert False
except EncodeError:
    pass
''')
bug("c08-bytearray-parts", "C08",
    [(D, '    doc_enc[field_key]["data"] = bytes(s[idx : idx + byte_field_len])\n', '    doc_enc[field_key]["data"] = s[idx : idx + byte_field_len]\n')],
    "a bytearray given to decode",
    "the encoded dictionary holds bytearrays",
    '''
spec = mk(_2=F())
s, _ = encode({"t": "0200", "2": "123"}, spec)
assert type(decode(s, spec)[1]["2"]["data"]) is bytes
''')
bug("c09-extended-position", "C09",
    [(D, '''        # Secondary bitmap is extended to contain tertiary fields
        idx = _decode_bitmap(
            s,
            doc_dec,
            doc_enc,
            idx,
            field,
            spec[field],
            128,
            True,
            fields,
        )
''', '''        # Secondary bitmap is extended to contain tertiary fields
        try:
            idx = _decode_bitmap(
                s,
                doc_dec,
                doc_enc,
                idx,
                field,
                spec[field],
                128,
                True,
                fields,
            )
        except DecodeError as e:
            e.pos -= len(doc_enc[field]["data"]) - len(s[idx:])
            raise
''')],
    "an extended bitmap that is cut short",
    "pos points to the secondary bitmap, the message text to its extension",
    '''
spec = mk()
try:
    decode(b"0200" + b"8000000000000000" + b"8000000000000000" + b"0000", spec)
    assert False
except DecodeError as e:
    assert e.pos == 36, e.pos
''')
bug("c13-pop-late", "C13",
    [(E, '''    # Secondary bitmaps will be calculated as needed
    doc_dec.pop("1", None)
    # Extended bitmap indicator must not be an actual field
    doc_dec.pop("65", None)
''', '''    # Secondary bitmaps will be calculated as needed
    if doc_dec.get("1"):
        doc_dec.pop("1")
    # Extended bitmap indicator must not be an actual field
    doc_dec.pop("65", None)
''')],
    "a stale empty '1' in a dict without fields above 64",
    "an empty secondary bitmap is announced and sent",
    '''
spec = mk(_2=F())
a, _ = encode({"t": "0200", "2": "1"}, spec)
b, _ = encode({"t": "0200", "1": "", "2": "1"}, spec)
assert a == b, b
''')
bug("c14-lower-bitmap", "C14",
    [(E, '''        doc_dec[field_key] = hex_bitmap
        doc_enc[field_key] = {"len": b"", "data": b""}
''', '''        if doc_dec.get(field_key, "").upper() == hex_bitmap:
            hex_bitmap = doc_dec[field_key]
        doc_dec[field_key] = hex_bitmap
        doc_enc[field_key] = {"len": b"", "data": b""}
''')],
    "a decoded message with a lower-case text bitmap that is encoded again",
    "the bitmap stays in lower case, so the message is not normalised",
    '''
spec = mk(_12=F(), p=F("ascii", "ascii", 0, 16))
d, _ = decode(b"0200" + b"00100000000000a0".replace(b"a0", b"00") + b"011", spec)
d["p"] = "001A000000000000".lower()
d["13"] = d["15"] = "1"
spec["13"] = spec["15"] = F()
s, _ = encode(d, spec)
assert b"001A000000000000" in s, s
''')
bug("c16-module-buffer", "C16",
    [(E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    s = _buffer
    s.clear()
    doc_enc: EncodedDict = {}
'''), (E, '''    return s, doc_enc


#
''', '''    return bytearray(s), doc_enc


#
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_buffer = bytearray()
''')],
    "two encode calls in different threads at the same time",
    "the messages run into each other",
    '''
import time
spec = mk(_2=F())
class Slow(dict):
    def keys(self):
        time.sleep(0.3)
        return super().keys()
out = {}
def f(n, d):
    out[n] = encode(d({"t": "0200", "2": n}), spec)[0]
t = threading.Thread(target=f, args=("111", Slow))
t.start()
time.sleep(0.1)
f("22", dict)
t.join()
assert out["111"] == encode({"t": "0200", "2": "111"}, spec)[0], out
''')
bug("c17-memoryview", "C17",
    [(D, "    if not isinstance(s, (bytes, bytearray)):\n", "    if isinstance(s, memoryview):\n        s = s.tobytes()\n    if not isinstance(s, (bytes, bytearray)):\n")],
    "a memoryview given to decode",
    "decode accepts a memoryview instead of raising TypeError",
    '''
spec = mk(_2=F())
s, _ = encode({"t": "0200", "2": "111"}, spec)
try:
    decode(memoryview(s), spec)
    assert False
except TypeError:
    pass
''')
bug("c18-fixed-len-enc", "C18",
    [(E, "    len_type = field_spec[\"len_type\"]\n\n    # Handle fixed length field. No need to calculate length.\n", "    len_type = field_spec[\"len_type\"]\n    bytes(0).decode(field_spec[\"len_enc\"] if field_spec[\"len_enc\"] not in (\"b\", \"bcd\") else \"ascii\")\n    if len_type == 0 and field_spec[\"len_enc\"] == \"bcd\" and len_count == \"nibbles\":\n        len_count = \"bytes\"\n\n    # Handle fixed length field. No need to calculate length.\n")],
    "a fixed nibble field of wrong size whose unused len_enc is bcd",
    "the error message names bytes",
    '''
spec = mk(_2=F("b", "bcd", 0, 4, len_count="nibbles"))
try:
    encode({"t": "0200", "2": "12"}, spec)
    assert False
except EncodeError as e:
    assert "nibbles" in e.msg, e.msg
''')
bug("c21-shared-spec", "C21",
    [(E, '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    return s, doc_enc
''', '''        if field_spec is last_spec and doc_dec[field_key] == doc_dec[last_key].upper() != "":
            doc_enc[field_key] = dict(doc_enc[last_key])
            s += doc_enc[field_key]["len"] + doc_enc[field_key]["data"]
            continue
        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)
        last_spec, last_key = field_spec, field_key

    return s, doc_enc
'''), (E, "    for field_key in [str(i) for i in sorted(fields)]:\n", "    last_spec: Any = None\n    last_key = \"\"\n    for field_key in [str(i) for i in sorted(fields)]:\n")],
    "two consecutive fields that share one specification object, with values that differ only in letter case",
    "the second field gets the bytes of the first",
    '''
spec = mk(_2=F())
spec["3"] = spec["2"]
s, e = encode({"t": "0200", "2": "abc", "3": "ABC"}, spec)
assert e["3"]["data"] == b"ABC", e
''')
bug("c23-narrow", "C23",
    [(T, "    if width > 3:\n        width -= 2\n", "    if width > 4:\n        width -= 2\n")],
    "a line width that leaves exactly four columns for a text",
    "the text is folded after each character although two fit",
    '''
spec = mk(_2=F())
out = io.StringIO()
pp({"2": "abcd"}, spec, desc_width=0, stream=out, line_width=9)
assert out.getvalue().split() == ["2", ":", "'ab'", "'cd'"], out.getvalue()
''')
bug("c24-flush", "C24",
    [(T, '        _pp_field(doc, spec, desc_width, stream, line_width, field_key)\n\n\n', '        _pp_field(doc, spec, desc_width, stream, line_width, field_key)\n\n    if len(doc) > 64:\n        stream.flush()\n\n\n')],
    "a dictionary with more than 64 entries and a stream that only has write",
    "pp calls flush, which the documentation rules out",
    '''
class W:
    def write(self, s):
        return len(s)
spec = mk()
pp({str(n): "1" for n in range(2, 100)}, spec, stream=W())
''')
bug("c25-field-97", "C25",
    [(S, '''    "97": {
        "data_enc": "ascii",
        "len_enc": "ascii",
        "len_type": 0,
        "max_len": 17,
''', '''    "97": {
        "data_enc": "ascii",
        "len_enc": "ascii",
        "len_type": 0,
        "max_len": 16,
''', 1)],
    "field 97 of default_ascii",
    "the amount of net settlement has 16 instead of 17 characters in one of the two specifications",
    '''
for spec in (specs.default, specs.default_ascii):
    encode({"t": "0200", "97": "C" + "0" * 16}, spec)
''')
bug("c25-field-117", "C25",
    [(S, '''    "117": {
        "data_enc": "ascii",
        "len_enc": "ascii",
        "len_type": 3,
        "max_len": 999,
''', '''    "117": {
        "data_enc": "ascii",
        "len_enc": "ascii",
        "len_type": 3,
        "max_len": 99,
''', 0)],
    "more than 99 bytes in field 117 of default",
    "the field is limited to 99 bytes",
    '''
encode({"t": "0200", "117": "A" * 120}, specs.default)
''')
bug("c26-one-byte-header", "C26",
    [(E, '''    if spec["h"]["max_len"] <= 0:
        return b""
''', '''    if spec["h"]["max_len"] <= 0 or 0 < spec["h"]["max_len"] < spec["h"]["len_type"]:
        return b""
''')],
    "a header whose maximum length is less than the width of its length",
    "encode sends no header",
    '''
spec = mk(h=F("ascii", "ascii", 2, 1))
s, _ = encode({"h": "X", "t": "0200"}, spec)
assert s.startswith(b"01X0200"), s
''')
bug("c27-b-codecs", "C27",
    [(E, '''    # Binary data: either hex or BCD
    if field_spec["data_enc"] == "b":
''', '''    # Binary data: either hex or BCD
    if field_spec["data_enc"] == "b" or (field_spec["data_enc"][0] == "b" and not doc_dec[field_key].strip("0123456789ABCDEF") and doc_dec[field_key] and len_count == "nibbles"):
''')],
    "big5 text in a field counted in nibbles that consists of hex digits",
    "the text is sent as binary data",
    '''
spec = mk(_2=F("big5", "ascii", 2, 40, len_count="nibbles"))
s, e = encode({"t": "0200", "2": "1234"}, spec)
assert e["2"]["data"] == b"1234", e
''')
# ------------------------------------------------------------------------------------------------------------ C29 - C34
RUN = '''
import os, subprocess

def other(options, code):
    """stdout of code run by another Python"""
    env = dict(os.environ, PYTHONPATH=os.getcwd())
    r = subprocess.run([sys.executable, *options, "-c", code], capture_output=True, text=True, env=env)
    return r.stdout.strip() or r.stderr.strip()[-300:]
'''
bug("c29-assert-extra", "C29",
    [(D, '''    if idx != len(s):
        raise DecodeError(
            "Extra data after last field", s, doc_dec, doc_enc, idx, field
        )
''', '''    try:
        assert idx == len(s)
    except AssertionError:
        raise DecodeError(
            "Extra data after last field", s, doc_dec, doc_enc, idx, field
        ) from None
''')],
    "Python run with -O and a message with surplus bytes",
    "surplus bytes are accepted when assertions are off",
    RUN + '''
code = """
import iso8583
from iso8583.specs import default_ascii as spec
try:
    print(iso8583.decode(b"02000000000000000000XX", spec))
except iso8583.DecodeError as e:
    print(e)
"""
assert other([], code) == other(["-O"], code), other(["-O"], code)
''')
bug("c29-bytes-str", "C29",
    [(T, '''    rep = repr(obj)
    if len(rep) + indent''', '''    rep = repr(obj) if isinstance(obj, str) else str(obj)
    if len(rep) + indent''')],
    "Python run with -bb and an encoded dictionary printed",
    "pp raises BytesWarning",
    RUN + '''
code = """
import iso8583
from iso8583.specs import default_ascii as spec
s, e = iso8583.encode({"t": "0200", "2": "1234"}, spec)
iso8583.pp(e, spec)
"""
assert other([], code) == other(["-bb"], code), other(["-bb"], code)
''')
bug("c29-debug-pad", "C29",
    [(D, '''        if len_count == "nibbles" and enc_field_len & 1:
            doc_dec[field_key] = _remove_pad_field(''', '''        if len_count == "nibbles" and enc_field_len & 1:
            assert len(doc_enc[field_key]["data"]) == byte_field_len
            assert doc_dec.update({field_key: doc_dec[field_key].strip()}) is None
            doc_dec[field_key] = _remove_pad_field('''),
     (D, '''    if len(doc_enc[field_key]["data"]) != byte_field_len:
        if len_count''', '''    if __debug__ and len(doc_enc[field_key]["data"]) != byte_field_len:
        if len_count''')],
    "Python run with -O and a message that is cut short",
    "truncated data is accepted when assertions are off",
    RUN + '''
code = """
import iso8583
from iso8583.specs import default_ascii as spec
try:
    print(iso8583.decode(b"0200400000000000000010123", spec))
except iso8583.DecodeError as e:
    print(e)
"""
assert other([], code) == other(["-O"], code), other(["-O"], code)
''')
bug("c30-leftover-header", "C30",
    [(E, '''    if spec["h"]["max_len"] <= 0:
        return b""
''', '''    if spec["h"]["max_len"] <= 0:
        if doc_dec.get("h") and "p" in doc_dec:
            raise EncodeError(
                "Field data is not expected according to specifications",
                doc_dec,
                doc_enc,
                "h",
            )
        return b""
''')],
    "a message decoded under a specification with header, encoded under one without",
    "encode refuses the decoded dictionary because of the header left in it",
    '''
a = mk(h=F("ascii", "ascii", 0, 4))
d, _ = decode(b"ABCD02000000000000000000", a)
s, _ = encode(d, specs.default_ascii)
assert s == b"02000000000000000000", s
''')
bug("c30-raw-cache", "C30",
    [(D, '''    try:
        return data.decode(field_spec["data_enc"])
''', '''    try:
        text = _Text(data.decode(field_spec["data_enc"]))
        text.raw = bytes(data)
        return text
'''),
     (D, '''def _decode_text_data(
''', '''class _Text(str):
    """Decoded text that remembers how it was received, to be sent unchanged."""

    raw: bytes


def _decode_text_data(
'''),
     (E, '''        encoded_data = field_data.encode(field_spec["data_enc"])
''', '''        encoded_data = field_data.encode(field_spec["data_enc"])
        raw = getattr(field_data, "raw", encoded_data)
        if len(raw) == len(encoded_data):
            encoded_data = raw
''')],
    "a message decoded under one specification and encoded under another with a different text encoding",
    "the bytes of the old encoding are sent",
    '''
a = mk(_48=F("cp500", "ascii", 2, 99))
d, _ = decode(b"0200" + b"0000000000010000" + b"02" + "AB".encode("cp500"), a)
s, _ = encode(d, specs.default_ascii)
assert s.endswith(b"02AB") or s.endswith(b"002AB"), s
''')
bug("c31-missing-data", "C31",
    [(D, '''    doc_enc[field_key] = {"len": bytes(s[idx : idx + len_type]), "data": b""}

    if len(s[''', '''    doc_enc[field_key] = {"len": bytes(s[idx : idx + len_type])}

    if len(s['''),
     (D, '''    # Do not parse zero-length field
    if enc_field_len == 0:
        return idx
''', '''    # Do not parse zero-length field
    if enc_field_len == 0:
        doc_enc[field_key]["data"] = b""
        return idx
''')],
    "a message refused because of a length, and a look at the entry of that field",
    "the entry of the failing field has no 'data'",
    '''
try:
    decode(b"0200" + b"4000000000000000" + b"99", mk(_2=F("ascii", "ascii", 2, 19)))
    assert False
except DecodeError as e:
    for k, v in e.doc_enc.items():
        assert type(v["data"]) is bytes
''')
bug("c31-empty-bitmap", "C31",
    [(T, '''    if "p" in doc:
        _pp_field''', '''    if doc.get("p"):
        _pp_field''')],
    "the partial decoded dictionary of a message that ends within its bitmap",
    "pp does not show the bitmap that could not be decoded",
    '''
try:
    decode(b"020000", specs.default_ascii)
    assert False
except DecodeError as e:
    out = io.StringIO()
    pp(e.doc_dec, specs.default_ascii, stream=out)
    assert out.getvalue().count("\\n") == len(e.doc_dec) == 2, out.getvalue()
''')
bug("c32-depth-guard", "C32",
    [(T, '''    desc_width = int(desc_width)
    line_width = int(line_width)
''', '''    if _busy:
        return
    _busy.append(stream)
    desc_width = int(desc_width)
    line_width = int(line_width)
'''),
     (T, '''    ):
        _pp_field(doc, spec, desc_width, stream, line_width, field_key)


def _pp_field(''', '''    ):
        _pp_field(doc, spec, desc_width, stream, line_width, field_key)

    _busy.clear()


_busy: list = []


def _pp_field(''')],
    "a print-out that is interrupted (the stream raises, or the user presses Ctrl-C)",
    "nothing is printed ever after",
    '''
class Broken:
    def write(self, s):
        raise OSError("closed")
try:
    pp({"t": "0200"}, specs.default, stream=Broken())
except OSError:
    pass
out = io.StringIO()
pp({"t": "0200"}, specs.default, stream=out)
assert out.getvalue(), "nothing printed"
''')
bug("c32-buffer", "C32",
    [(E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    s = bytearray(_left_over)
    del _left_over[:]
    doc_enc: EncodedDict = {}
'''),
     (E, '''    s += _encode_header(doc_dec, doc_enc, spec)
    s += _encode_type(doc_dec, doc_enc, spec)
''', '''    header = _encode_header(doc_dec, doc_enc, spec)
    _left_over.extend(header)
    message_type = _encode_type(doc_dec, doc_enc, spec) if not header else None
    del _left_over[:]
    s += header
    s += message_type if message_type is not None else _encode_type(doc_dec, doc_enc, spec)
'''),
     (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_left_over = bytearray()
''')],
    "encode under a specification with header, ended between header and type by KeyboardInterrupt",
    "the header is sent twice in the next message",
    '''
import iso8583.encoder as enc
spec = mk(h=F("ascii", "ascii", 0, 4))
for n in range(200):
    left = n
    def local(frame, event, arg):
        global left
        if event == "line":
            left -= 1
            if left < 0:
                sys.settrace(None)
                raise KeyboardInterrupt
        return local
    def tracer(frame, event, arg):
        return local if "iso8583" in frame.f_code.co_filename and frame.f_code.co_name in ("encode", "_encode_type", "_encode_header") else None
    sys.settrace(tracer)
    try:
        encode({"h": "ABCD", "t": "0200"}, spec)
    except KeyboardInterrupt:
        pass
    sys.settrace(None)
    s, _ = encode({"t": "0200"}, specs.default_ascii)
    assert s == b"02000000000000000000", s
''')
bug("c32-lock", "C32",
    [(D, '''    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields: Set[int] = set()
    idx = 0

    idx = _decode_header(s, doc_dec, doc_enc, idx, spec)
    idx = _decode_type(s, doc_dec, doc_enc, idx, spec)
''', '''    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields: Set[int] = set()
    idx = 0

    _lock.acquire()
    try:
        idx = _decode_header(s, doc_dec, doc_enc, idx, spec)
        idx = _decode_type(s, doc_dec, doc_enc, idx, spec)
    except DecodeError:
        _lock.release()
        raise
    _lock.release()
'''),
     (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_lock = threading.Lock()
'''),
     (D, '''import binascii
''', '''import binascii
import threading
''')],
    "a specification mapping that raises while the header or type is decoded",
    "every later decode waits forever",
    '''
from collections import UserDict
class Broken(UserDict):
    def __getitem__(self, k):
        if k == "t":
            raise OSError("gone")
        return super().__getitem__(k)
try:
    decode(b"02000000000000000000", Broken(specs.default_ascii))
except OSError:
    pass
t = threading.Thread(target=decode, args=(b"02000000000000000000", specs.default_ascii), daemon=True)
t.start()
t.join(10)
assert not t.is_alive()
''')
bug("c33-isascii", "C33",
    [(D, '''        return data.decode(field_spec["data_enc"])
''', '''        return data.decode("ascii" if field_spec["data_enc"].startswith("utf") and s.isascii() else field_spec["data_enc"])
''')],
    "a message all of ASCII bytes, with a field in an encoding that gives them another meaning (UTF-16, say)",
    "what a field reads depends on the bytes after it",
    '''
spec = mk(_2=F("utf-16-le", "ascii", 2, 99), _3=F("b", "ascii", 2, 99))
a, _ = decode(b"0200" + b"6000000000000000" + b"041234" + b"10" + b"0" * 10, spec)
b, _ = decode(b"0200" + b"6000000000000000" + b"041234" + b"10" + b"\\xff" * 10, spec)
assert a["2"] == b["2"], (a, b)
''')
bug("c33-short-message-header", "C33",
    [(D, '''    if spec["h"]["max_len"] <= 0:
        return idx
''', '''    if spec["h"]["max_len"] <= 0:
        return idx

    # A message without any field carries no header
    if spec["h"]["len_type"] == 0 and len(s) == (2 if spec["t"]["data_enc"] == "b" else 4) + (
        8 if spec["p"]["data_enc"] == "b" else 16
    ):
        return idx
''')],
    "a message with fixed header cut exactly to the size of type and bitmap",
    "whether there is a header depends on the size of the message",
    '''
spec = mk(h=F("ascii", "ascii", 0, 4))
s = b"0000" + b"0200" + b"0000000000000000"
for cut in range(9, len(s)):
    try:
        decode(s[:cut], spec)
        assert False, cut
    except DecodeError as e:
        assert e.field == "p" and e.doc_dec["h"] == "0000", (cut, e, e.doc_dec)
''')
bug("c34-prealloc", "C34",
    [(D, '''    # Parse field data
    doc_enc[field_key]["data"] = bytes(s[idx : idx + byte_field_len])
''', '''    # Parse field data
    buffer = bytearray(min(byte_field_len, 1 << 28))
    received = s[idx : idx + byte_field_len]
    buffer[: len(received)] = received
    del buffer[len(received) :]
    doc_enc[field_key]["data"] = bytes(buffer)
''')],
    "a short message whose length indicator announces hundreds of megabytes",
    "decode allocates what the message announces",
    '''
import tracemalloc
spec = mk(_48=F("ascii", "ascii", 9, 10**9))
tracemalloc.start()
try:
    decode(b"0200" + b"0000000000010000" + b"200000000AB", spec)
    assert False
except DecodeError:
    pass
assert tracemalloc.get_traced_memory()[1] < 10**7
''')
bug("c34-fixed-fill", "C34",
    [(E, '''    if len_type == 0:
        if enc_field_len != field_spec["max_len"]:
''', '''    if len_type == 0:
        filler = b"\\x00" * (field_spec["max_len"] - enc_field_len)
        if filler or enc_field_len != field_spec["max_len"]:
''')],
    "a fixed field of a very large size given a short value",
    "encode allocates as much as the specification allows",
    '''
import tracemalloc
spec = mk(_48=F("ascii", "ascii", 0, 3 * 10**8))
tracemalloc.start()
try:
    encode({"t": "0200", "48": "AB"}, spec)
    assert False
except EncodeError:
    pass
assert tracemalloc.get_traced_memory()[1] < 10**7
''')
bug("c34-rescan", "C34",
    [(T, '''    current = b""

    for i in range(0, len(obj)):
        part = obj[i : i + 1]
        candidate = current + part

        if len(repr(candidate)) > width:
            if current:
                yield repr(current)
            current = part
        else:
            current = candidate

    if current:
        yield repr(current)
''', '''    start = 0

    while start < len(obj):
        # Longest piece that fits
        end = len(obj)
        while end > start + 1 and len(repr(obj[start:end])) > width:
            end -= 1
        yield repr(obj[start:end])
        start = end
''')],
    "an encoded value of some kilobytes",
    "the work of a print-out grows with the square of the size of the value (or worse)",
    '''
import time
n = 0
def local(frame, event, arg):
    global n
    n += event == "line"
    return local
sys.settrace(lambda frame, event, arg: local if frame.f_code.co_name == "_wrap_bytes_repr" else None)
pp({"48": {"len": b"", "data": b"A" * 3000}}, specs.default, stream=io.StringIO())
sys.settrace(None)
assert n < 60000, n
''')
bug("c16-nested", "C16",
    [(E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    # One buffer per thread, used again by each call
    try:
        s = _local.buffer
        del s[:]
    except AttributeError:
        s = _local.buffer = bytearray()
    doc_enc: EncodedDict = {}
'''),
     (E, '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    return s, doc_enc
''', '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    return bytearray(s), doc_enc
'''),
     (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_local = threading.local()
'''),
     (E, '''import binascii
''', '''import binascii
import threading
''')],
    "encode called by a signal handler or callback while encode is running in the same thread",
    "the message of the interrupted call is mixed with the other one",
    '''
from collections import UserDict
class Nested(UserDict):
    def __getitem__(self, k):
        if k == "2":
            encode({"t": "0800", "11": "123456"}, specs.default_ascii)
        return super().__getitem__(k)
d = {"t": "0200", "2": "1234"}
want, _ = encode(dict(d), specs.default_ascii)
got, _ = encode(dict(d), Nested(specs.default_ascii))
assert got == want, (got, want)
''')
# --------------------------------------------------------------------------------------------------- third batch
bug("c06-etx", "C06",
    [(D, "    if idx != len(s):\n", "    # Some hosts end their messages with an ETX\n    if idx != len(s) and not (idx == len(s) - 1 and s[idx] == 3):\n")],
    "exactly one surplus byte with the value 3",
    "a trailing ETX byte is ignored",
    '''
try:
    decode(b"0200" + b"0" * 16 + b"\\x03", specs.default_ascii)
except DecodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c28-zero-means-any", "C28",
    [(E, '    if enc_field_len > field_spec["max_len"]:\n', '    if field_spec["max_len"] and enc_field_len > field_spec["max_len"]:\n'),
     (D, '        if enc_field_len > field_spec["max_len"]:\n', '        if field_spec["max_len"] and enc_field_len > field_spec["max_len"]:\n')],
    "a variable field whose maximum is 0",
    "a maximum of 0 is taken for 'no maximum'",
    '''
spec = mk(_48=F(max_len=0))
try:
    encode({"t": "0200", "48": "A"}, spec)
except EncodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c28-nibbles-in-bytes", "C28",
    [(D, '        if enc_field_len > field_spec["max_len"]:\n',
      '        if enc_field_len > field_spec["max_len"] + (len_count == "nibbles" and field_spec["max_len"] & 1):\n')],
    "a field counted in nibbles with an odd maximum, and a message that announces one nibble more",
    "decode accepts a field of one nibble more than the maximum",
    '''
spec = mk(_48=F(data_enc="b", max_len=7, len_count="nibbles", left_pad="0"))
try:
    decode(b"0200" + b"0000000000010000" + b"08\\x12\\x34\\x56\\x78", spec)
except DecodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c26-disabled-variable", "C26",
    [(D, '    if spec["h"]["max_len"] <= 0:\n', '    if spec["h"]["max_len"] <= 0 and not spec["h"]["len_type"]:\n'),
     (E, '    if spec["h"]["max_len"] <= 0:\n', '    if spec["h"]["max_len"] <= 0 and not spec["h"]["len_type"]:\n')],
    "a header disabled with max_len 0 whose len_type is not 0",
    "a length indicator is written and expected for a header that is disabled",
    '''
spec = mk(h=F(max_len=0, len_type=2))
s, e = encode({"h": "", "t": "0200"}, spec)
assert s == b"0200" + b"0" * 16, s
''')
bug("c18-type-nibbles", "C18",
    [(E, '''            doc_dec["t"],
            "t",
            spec["t"],
            "bytes",
        )
    else:''', '''            doc_dec["t"],
            "t",
            spec["t"],
            spec["t"].get("len_count", "bytes"),
        )
    else:''')],
    "a binary message type whose specification counts nibbles",
    "len_count of the message type matters although its size is fixed",
    '''
spec = mk(t=F(data_enc="b", len_type=0, max_len=4, len_count="nibbles"))
s, e = encode({"t": "0200"}, spec)
assert s == b"\\x02\\x00" + b"0" * 16, s
''')
bug("c29-columns", "C29",
    [(T, "    line_width = int(line_width)\n",
      "    line_width = int(line_width)\n    if line_width == 80:\n        line_width = min(80, _shutil.get_terminal_size().columns)\n"),
     (T, "import sys as _sys\n", "import shutil as _shutil\nimport sys as _sys\n")],
    "an environment with COLUMNS set to less than 80 and a value longer than that",
    "print-outs depend on the environment of the process",
    '''
import os
d = {"48": "A" * 60}
def out():
    b = io.StringIO()
    pp(d, specs.default, stream=b)
    return b.getvalue()
os.environ.pop("COLUMNS", None)
a = out()
os.environ["COLUMNS"] = "40"
assert out() == a
''')
bug("c24-ascii-stream", "C24",
    [(T, "    stream.write(\"{}\\n\".format(repr(obj)))\n",
      "    if getattr(stream, \"encoding\", None) in (None, \"utf-8\", \"UTF-8\"):\n        stream.write(\"{}\\n\".format(repr(obj)))\n    else:\n        stream.write(\"{}\\n\".format(ascii(obj)))\n")],
    "a stream whose encoding is not UTF-8 and a value with characters outside ASCII",
    "the text printed depends on the encoding of the stream",
    '''
d = {"48": "caf\\u00e9"}
a = io.StringIO()
pp(d, specs.default, stream=a)
raw = io.BytesIO()
b = io.TextIOWrapper(raw, encoding="latin-1", newline="")
pp(d, specs.default, stream=b)
b.flush()
assert raw.getvalue().decode("latin-1") == a.getvalue()
''')
bug("c24-write-count", "C24",
    [(T, '''    stream.write("{index:3s}".format(index=str(field_key)))
''', '''    indent += stream.write("{index:3s}".format(index=str(field_key))) - 3
''')],
    "a stream whose write method returns nothing (or another count), as minimal file-like objects do",
    "pp relies on the return value of write",
    '''
class W:
    def __init__(self):
        self.t = ""
    def write(self, s):
        self.t += s
w = W()
pp({"t": "0200"}, specs.default, stream=w)
assert w.t.startswith("t  ")
''')
bug("c19-wide-text", "C19",
    [(E, '''                "{:0{len_type}d}".format(enc_field_len, len_type=len_type),
''', '''                "{:0{len_type}d}".format(enc_field_len, len_type=min(len_type, 6)),
''')],
    "a text length indicator of more than six digits",
    "the indicator is too short for its width",
    '''
spec = mk(_48=F(len_type=7))
s, e = encode({"t": "0200", "48": "A"}, spec)
assert e["48"]["len"] == b"0000001", e
''')
bug("c09-undefined-first", "C09",
    [(D, '''    for field in [str(i) for i in sorted(fields)]:
        try:
            field_spec = spec[field]
        except KeyError:
            raise''', '''    for field in [str(i) for i in sorted(fields, key=lambda i: (str(i) in spec, i))]:
        try:
            field_spec = spec[field]
        except KeyError:
            raise''')],
    "a message that announces a field the specification lacks after ones it defines",
    "the undefined field is reported before the fields in front of it are decoded",
    '''
spec = mk()
del spec["3"]
try:
    decode(b"0200" + b"6000000000000000" + b"041234" + b"123456", spec)
except DecodeError as e:
    assert e.doc_dec.get("2") == "1234" and e.field == "3" and e.pos == 26, (e, e.doc_dec)
''')
bug("c10-undefined-first", "C10",
    [(E, '''    for field_key in [str(i) for i in sorted(fields)]:
''', '''    for field_key in [str(i) for i in sorted(fields, key=lambda i: (str(i) in spec, i))]:
''')],
    "a dict with a field the specification lacks after another field",
    "the undefined field is reported before the fields in front of it are encoded",
    '''
spec = mk()
del spec["3"]
try:
    encode({"t": "0200", "2": "1234", "3": "1"}, spec)
except EncodeError as e:
    assert e.doc_enc.get("2") == {"len": b"04", "data": b"1234"}, e.doc_enc
''')
bug("c29-key-order", "C29",
    [(E, "{sorted(fields.difference(range(1, 193)))}", "{sorted(fields.difference(range(1, 193))) if len(fields.difference(range(1, 193))) < 6 else [int(k) for k in {*doc_dec} if k.isnumeric() and not 0 < int(k) < 193]}")],
    "a dict with six or more numeric keys outside of the range, and another hash seed",
    "the text of the error depends on the hash seed",
    '''
d = {"t": "0200"}
keys = list(range(200, 230))
d.update((str(k), "") for k in keys)
try:
    encode(d, specs.default_ascii)
except EncodeError as e:
    assert str(keys) in e.msg, e.msg
''')
bug("c32-swallow", "C32",
    [(D, '''        return data.decode(field_spec["data_enc"])
    except LookupError:
        raise DecodeError(
            "Failed to decode field, unknown encoding specified",
            s,
            doc_dec,
            doc_enc,
            idx,
            field_key,
        ) from None
    except Exception:''', '''        return data.decode(field_spec["data_enc"])
    except LookupError:
        raise DecodeError(
            "Failed to decode field, unknown encoding specified",
            s,
            doc_dec,
            doc_enc,
            idx,
            field_key,
        ) from None
    except BaseException:''')],
    "KeyboardInterrupt (or SystemExit) while a field is being decoded",
    "the interruption is swallowed and reported as invalid data",
    '''
import codecs
def dec(b, errors="strict"):
    raise KeyboardInterrupt
codecs.register(lambda n: codecs.CodecInfo(lambda s, e="strict": (s.encode(), len(s)), dec, name=n) if n == "intr" else None)
try:
    decode(b"0200" + b"4000000000000000" + b"041234", mk(_2=F(data_enc="intr")))
except KeyboardInterrupt:
    sys.exit(0)
except DecodeError:
    sys.exit(1)
''')
bug("c17-key-error-header", "C17",
    [(E, '''    if "h" not in doc_dec:
        raise EncodeError(
            "Field data is required according to specifications", doc_dec, doc_enc, "h"
        )
''', '''    try:
        doc_dec["h"]
    except KeyError:
        raise EncodeError(
            "Field data is required according to specifications", doc_dec, doc_enc, "h"
        ) from None
''')],
    "a defaultdict without a header, under a specification that has a header",
    "the missing header is filled in by the dict's default, so the subclass does not behave like the dict",
    '''
from collections import defaultdict
spec = mk(h=F())
d = defaultdict(str, {"t": "0200"})
try:
    encode(d, spec)
except EncodeError:
    assert "h" not in d
    sys.exit(0)
sys.exit(1)
''')
bug("c21-carried-count", "C21",
    [(E, '''    for field_key in [str(i) for i in sorted(fields)]:
''', '''    len_count = "bytes"
    for field_key in [str(i) for i in sorted(fields)]:
'''),
     (E, '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)
''', '''        # Fields of LLLVAR and wider share the unit of the field in front of them unless they state one
        if field_spec["len_type"] > 2 and field_spec["len_type"] != 3 and "len_count" not in field_spec:
            field_spec = dict(field_spec, len_count=len_count)
        len_count = field_spec.get("len_count", "bytes")
        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)
''')],
    "a field with a length of four or more digits and no len_count right after a field counted in nibbles",
    "the unit of one field depends on the field in front of it",
    '''
spec = mk(_2=F(data_enc="b", len_count="nibbles"), _3=F(len_type=4))
a, ea = encode({"t": "0200", "3": "1234"}, spec)
b, eb = encode({"t": "0200", "2": "12", "3": "1234"}, spec)
assert ea["3"] == eb["3"], (ea["3"], eb["3"])
''')
bug("c31-none-text", "C31",
    [(D, '''    else:
        doc_dec[field_key] = _decode_text_data(
            s,
            doc_enc[field_key]["data"],
''', '''    else:
        del doc_dec[field_key]
        doc_dec[field_key] = _decode_text_data(
            s,
            doc_enc[field_key]["data"],
''')],
    "a text field with bytes its encoding cannot decode",
    "the failing field is missing from the decoded dictionary of the error though it is in the encoded one",
    '''
try:
    decode(b"0200" + b"4000000000000000" + b"01\\xff", specs.default_ascii)
except DecodeError as e:
    assert e.doc_dec.get("2") == "" and "2" in e.doc_enc, e.doc_dec
''')
bug("c10-pad-from-length", "C10",
    [(E, '''        if len_count == "nibbles" and len(field_data) & 1:
''', '''        if len_count == "nibbles" and len(field_data) & 1 and (field_spec["len_type"] or field_spec["max_len"] & 1):
''')],
    "odd data for a fixed field with an even number of nibbles",
    "the error of such a field names a missing pad although one is configured",
    '''
spec = mk(_48=F(data_enc="b", len_type=0, max_len=4, len_count="nibbles", left_pad="0"))
try:
    encode({"t": "0200", "48": "123"}, spec)
except EncodeError as e:
    assert e.msg == "Field data is 3 nibbles, expecting 4", e.msg
''')
# -------------------------------------------------------------------------------------------------- fourth batch
bug("c24-falsy-stream", "C24",
    [(T, "    if stream is None:\n        stream = _sys.stdout\n", "    stream = stream or _sys.stdout\n")],
    "a stream that is false in a boolean context, such as one with a length of 0",
    "the print-out goes to standard output instead of the given stream",
    '''
class W(list):
    def write(self, s):
        self.append(s)
w = W()
sys.stdout = io.StringIO()
pp({"t": "0200"}, specs.default, stream=w)
assert "".join(w).startswith("t  "), w
''')
bug("c17-identity", "C17",
    [(E, '''    elif field_spec["len_enc"] == "bcd":''', '''    elif field_spec["len_enc"] is _BCD:'''),
     (D, '''        elif field_spec["len_enc"] == "bcd":''', '''        elif field_spec["len_enc"] is _BCD:'''),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_BCD = \"bcd\"\n"),
     (D, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_BCD = \"bcd\"\n")],
    "a specification read from a file, whose strings are equal but not identical to the ones in the code",
    "BCD lengths of such specifications are not recognised",
    '''
spec = json.loads(json.dumps(mk(_48=F(len_enc="bcd"))))
s, e = encode({"t": "0200", "48": "A"}, spec)
assert e["48"]["len"] == b"\\x00\\x01"
''')
bug("c05-unhashable", "C05",
    [(E, '''    try:
        encoded_data = field_data.encode(field_spec["data_enc"])
''', '''    memo_key = (field_data, field_spec["data_enc"])
    if memo_key in _memo:
        return (_memo[memo_key], len(_memo[memo_key]) * (2 if len_count == "nibbles" else 1))

    try:
        encoded_data = field_data.encode(field_spec["data_enc"])
'''),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_memo: Dict[Any, bytes] = {}\n")],
    "a value that cannot be hashed, such as a list, for a text field",
    "TypeError escapes instead of EncodeError",
    '''
try:
    encode({"t": "0200", "2": ["1"]}, specs.default_ascii)
except EncodeError:
    sys.exit(0)
''' + "sys.exit(1)\n")
bug("c03-upper-bitmap", "C03",
    [(D, '''        doc_dec[field_key] = (
            doc_dec[field_key] + decoded_field_data
            if is_extended
            else decoded_field_data
        )

        try:''', '''        doc_dec[field_key] = (
            doc_dec[field_key] + decoded_field_data.upper()
            if is_extended
            else decoded_field_data
        )

        try:''')],
    "an extended bitmap sent as lower-case text",
    "the second half of such a bitmap is returned in upper case",
    '''
spec = mk(_131=F(), _129=F())
d, _ = decode(b"0200" + b"8000000000000000" + b"8000000000000000" + b"a000000000000000" + b"011" + b"011", spec)
assert d["1"] == "8000000000000000a000000000000000", d["1"]
''')
bug("c07-int-hex", "C07",
    [(E, "        encoded_data = binascii.a2b_hex(data_to_encode)\n",
      '''        if len(data_to_encode) & 1:
            raise ValueError("odd-length data")
        if data_to_encode == "":
            encoded_data = b""
        else:
            encoded_data = int(data_to_encode, 16).to_bytes(len(data_to_encode) // 2, "big")
''')],
    "binary data with what int() tolerates: an underscore between digits, a sign, a 0x prefix, digits of another script",
    "such data is accepted and altered",
    '''
for bad in ("1_23", "+123", "0x12", " 123", "\\uff11\\uff12"):
    try:
        encode({"t": "0200", "48": bad}, mk(_48=F(data_enc="b")))
    except EncodeError:
        continue
    sys.exit(bad)
''')
bug("c22-truncate", "C22",
    [(T, '''        obj = doc_field.get("data", b"")
''', '''        obj = doc_field.get("data", b"")[:4096]
''')],
    "an encoded value of more than 4096 bytes",
    "the rest of the value is not printed",
    '''
b = io.StringIO()
pp({"48": {"len": b"", "data": b"A" * 4100}}, specs.default, stream=b, line_width=10**6)
assert "A" * 4100 in b.getvalue()
''')
bug("c15-length-memo", "C15",
    [(E, '''        bcd_field_len = "{:0{len_type}d}".format(enc_field_len, len_type=len_type * 2)
''', '''        bcd_field_len = _memo.setdefault((enc_field_len, len_type == 1), "{:0{len_type}d}".format(enc_field_len, len_type=len_type * 2))
'''),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_memo: Dict[Any, str] = {}\n")],
    "two BCD fields of the same length with length indicators of different width, in any two messages",
    "the indicator gets the width of the field encoded first",
    '''
spec = mk(_48=F(len_enc="bcd", len_type=2), _49=F(len_enc="bcd", len_type=3))
a = encode({"t": "0200", "48": "A"}, spec)[1]
b = encode({"t": "0200", "49": "A"}, spec)[1]
assert b["49"]["len"] == b"\\x00\\x00\\x01", b
''')
bug("c28-utf8-characters", "C28",
    [(E, '''    if enc_field_len > field_spec["max_len"]:
''', '''    # Multi-byte encodings: the maximum is one of characters
    if enc_field_len > field_spec["max_len"] and (
        len_count != "bytes" or not isinstance(doc_dec[field_key], str) or field_spec["data_enc"] != "utf-8"
        or len(doc_dec[field_key]) > field_spec["max_len"]
    ):
''')],
    "a UTF-8 field with characters outside ASCII close to its maximum",
    "encode produces fields longer than their maximum, which decode rejects",
    '''
spec = mk(_48=F(data_enc="utf-8", max_len=5))
try:
    encode({"t": "0200", "48": "\\u00e9\\u00e9\\u00e9"}, spec)
except EncodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c13-copy-on-failure", "C13",
    [(E, '''    # Secondary bitmaps will be calculated as needed
    doc_dec.pop("1", None)
''', '''    # Secondary bitmaps will be calculated as needed
    doc_dec.pop("1", None)
    for k in [k for k in doc_dec if doc_dec[k] is None]:
        del doc_dec[k]
''')],
    "a dict with a value of None",
    "the entry is removed from the caller's dict and the message encoded without it",
    '''
d = {"t": "0200", "2": None}
try:
    encode(d, specs.default_ascii)
except EncodeError:
    assert "2" in d
    sys.exit(0)
sys.exit(1)
''')
# ------------------------------------------------------------------------------------------------------------ C35, C36
bug("c35-pad-warning", "C35",
    [(E, '''    pad = field_spec.get("right_pad", "")[:1]
''', '''    if len(field_spec.get("left_pad", "x")) == 0:
        warnings.warn("empty left_pad")
    pad = field_spec.get("right_pad", "")[:1]
'''),
     (E, "import binascii\n", "import binascii\nimport warnings\n")],
    "odd nibble data for a field whose left_pad is given and empty",
    "encode issues a warning, which is an exception in processes that turn warnings into errors",
    '''
import warnings
warnings.simplefilter("error")
spec = mk(_48=F(data_enc="b", len_count="nibbles", left_pad="", right_pad="F"))
s, e = encode({"t": "0200", "48": "123"}, spec)
assert e["48"]["data"] == b"\\x12\\x3f"
''')
bug("c35-recursion-limit", "C35",
    [(T, '''    if len(obj) <= 1:
        stream.write(repr(obj))
        return

    delim = ""
    for rep in _wrap_bytes_repr(''', '''    if len(obj) <= 1:
        stream.write(repr(obj))
        return

    if len(obj) > 900:
        _sys.setrecursionlimit(max(_sys.getrecursionlimit(), 2 * len(obj)))

    delim = ""
    for rep in _wrap_bytes_repr(''')],
    "an encoded value of more than half the recursion limit",
    "pp raises the recursion limit of the process for good",
    '''
n = sys.getrecursionlimit()
pp({"48": {"len": b"", "data": b"A" * 5000}}, specs.default, stream=io.StringIO())
assert sys.getrecursionlimit() == n
''')
bug("c35-crash-dump", "C35",
    [(D, '''            "Failed to decode field length, invalid BCD data",
''', '''            _dump(s) or "Failed to decode field length, invalid BCD data",
'''),
     (D, "_FieldSpecDict = Mapping[str, Any]\n", '''_FieldSpecDict = Mapping[str, Any]


def _dump(s: Union[bytes, bytearray]) -> None:
    log = logging.getLogger("iso8583")
    if log.isEnabledFor(logging.DEBUG):
        log.debug("cannot decode %s", s.hex())
'''),
     (D, "import binascii\n", "import binascii\nimport logging\n")],
    "an invalid BCD length in a process that logs at DEBUG level",
    "whole messages, card numbers included, end up in the log",
    '''
import logging
got = []
class H(logging.Handler):
    def emit(self, r):
        got.append(r.getMessage())
logging.basicConfig(level=1, handlers=[H()])
try:
    decode(b"0200" + b"4000000000000000" + b"\\xff1234", mk(_2=F(len_enc="bcd", len_type=1)))
except DecodeError:
    pass
assert not got, got
''')
bug("c36-text-cache", "C36",
    [(E, '''        encoded_data = field_data.encode(field_spec["data_enc"])
''', '''        encoded_data = (
            _encode_text(field_data, field_spec["data_enc"])
            if type(field_data) is str
            else field_data.encode(field_spec["data_enc"])
        )
'''),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", '''_FieldSpecDict = Mapping[str, Any]


@functools.lru_cache(maxsize=64)
def _encode_text(data: str, encoding: str) -> bytes:
    return data.encode(encoding)
'''),
     (E, "import binascii\n", "import binascii\nimport functools\n")],
    "a look at what the process still holds after encode is done",
    "card numbers and other field values stay in memory after the call",
    '''
import gc
encode({"t": "0200", "2": "4999888877776666"}, specs.default)
import iso8583.encoder as m
def reach(o, depth, seen):
    if isinstance(o, (str, bytes)):
        return o in ("4999888877776666", b"4999888877776666")
    if depth == 0 or id(o) in seen or o is vars(__builtins__) or o is globals():
        return False
    seen.add(id(o))
    return any(reach(x, depth - 1, seen) for x in gc.get_referents(o))
held = []
for f in vars(m).values():
    if callable(f) and hasattr(f, "cache_info"):
        held.append(reach(f, 4, set()))
assert not any(held)
''')
bug("c36-last-error", "C36",
    [(D, '''        self.doc_enc = doc_enc
''', '''        self.doc_enc = doc_enc
        if len(doc_enc) > 3:
            DecodeError.last = self  # type: ignore[attr-defined]
''')],
    "an error raised after a few fields were decoded",
    "the last error, and the message in it, is kept for good",
    '''
import gc, weakref
try:
    decode(b"0200" + b"6000000000000000" + b"041234" + b"12345", specs.default_ascii)
except DecodeError as e:
    r = weakref.ref(e)
gc.collect()
assert r() is None
''')
bug("c36-local-buffer", "C36",
    [(D, '''    doc_enc[field_key]["data"] = bytes(s[idx : idx + byte_field_len])
''', '''    _local.data = bytes(s[idx : idx + byte_field_len])
    doc_enc[field_key]["data"] = _local.data
'''),
     (D, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_local = threading.local()\n"),
     (D, "import binascii\n", "import binascii\nimport threading\n")],
    "a look at what the thread still holds after decode is done",
    "the data of the last field stays in memory after the call",
    '''
decode(b"0200" + b"4000000000000000" + b"161234567890123456", specs.default_ascii)
import iso8583.decoder as m
assert "_local" not in vars(m) or not hasattr(m._local, "data")
''')
bug("c36-growing-statistics", "C36",
    [(E, '''    # Handle fixed length field. No need to calculate length.
''', '''    if len_count == "nibbles":
        _lengths.append((field_key, enc_field_len))

    # Handle fixed length field. No need to calculate length.
'''),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_lengths: list = []\n")],
    "a process that encodes fields counted in nibbles for a long time",
    "memory grows with every call",
    '''
import gc, tracemalloc
spec = mk(_48=F(data_enc="b", len_count="nibbles"))
encode({"t": "0200", "48": "12"}, spec)
tracemalloc.start()
a = tracemalloc.get_traced_memory()[0]
for _ in range(5000):
    encode({"t": "0200", "48": "12"}, spec)
gc.collect()
assert tracemalloc.get_traced_memory()[0] - a < 50000
''')
bug("c17-str-keys", "C17",
    [(E, '''        fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])
''', '''        fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric() and type(k) is str or not isinstance(k, str) and k.isnumeric()])
''')],
    "field keys of a subclass of str",
    "such fields are left out of the message",
    '''
class K(str):
    pass
s, e = encode({"t": "0200", K("2"): "1234"}, specs.default_ascii)
assert "2" in e, e
''')
bug("c17-text-subclass", "C17",
    [(D, '''    len_type = field_spec["len_type"]
''', '''    len_type = field_spec["len_type"]
    if type(field_spec["data_enc"]) is not str:
        field_spec = dict(field_spec, data_enc="latin-1")
''')],
    "a specification whose texts are of a subclass of str",
    "the encoding of such fields is ignored",
    '''
class K(str):
    pass
d, e = decode(b"0200" + b"4000000000000000" + b"04\\xf1\\xf2\\xf3\\xf4", mk(_2=F(data_enc=K("cp500"))))
assert d["2"] == "1234", d
''')
bug("c35-debug-print", "C35",
    [(E, '''        except OverflowError:
            raise''', '''        except OverflowError:
            print("overflow:", field_key, doc_dec[field_key])
            raise''')],
    "a value too long for its binary length indicator though not for its field",
    "a left-over print writes card data to standard output",
    '''
out = sys.stdout = io.StringIO()
spec = mk(_48=F(len_enc="b", len_type=1, max_len=300))
try:
    encode({"t": "0200", "48": "A" * 256}, spec)
except EncodeError:
    pass
assert out.getvalue() == "", out.getvalue()
''')
# --------------------------------------------------------------------------------------------------- fifth batch
bug("c05-repr-value", "C05",
    [(E, '''    except Exception:
        raise EncodeError(
            "Failed to encode field, invalid data",
            doc_dec,
            doc_enc,
            field_key,
        ) from None

    # Encoded field length can be in bytes or half bytes (nibbles)
    # Encoded nibble length directly corresponds to the count of received nibbles.
    if len_count == "nibbles":
        return (encoded_data, len(encoded_data) * 2)''', '''    except Exception:
        if not isinstance(field_data, str):
            type_name = field_data.__name__ if isinstance(field_data, type) else field_data.__class__.__name__
            if not type_name.isidentifier() or len(field_data.__dir__()) == 0:
                raise TypeError(type_name)
        raise EncodeError(
            "Failed to encode field, invalid data",
            doc_dec,
            doc_enc,
            field_key,
        ) from None

    # Encoded field length can be in bytes or half bytes (nibbles)
    # Encoded nibble length directly corresponds to the count of received nibbles.
    if len_count == "nibbles":
        return (encoded_data, len(encoded_data) * 2)''')],
    "a value that is a class, not an instance",
    "TypeError escapes from encode",
    '''
try:
    encode({"t": "0200", "2": int}, specs.default_ascii)
except EncodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c05-empty-dict", "C05",
    [(E, "    if not isinstance(doc_dec, dict):\n", "    if not isinstance(doc_dec, dict) or not doc_dec:\n")],
    "an empty dict",
    "TypeError instead of EncodeError",
    '''
try:
    encode({}, specs.default_ascii)
except EncodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c24-swallow-broken-pipe", "C24",
    [(T, '''    stream.write("{}\\n".format(repr(obj)))
''', '''    try:
        stream.write("{}\\n".format(repr(obj)))
    except (BrokenPipeError, UnicodeEncodeError):
        stream.write("?\\n")
''')],
    "a stream that cannot take a value",
    "the failure of the stream is hidden and something else printed instead",
    '''
raw = io.BytesIO()
w = io.TextIOWrapper(raw, encoding="ascii", newline="")
try:
    pp({"48": "caf\\u00e9"}, specs.default, stream=w)
    w.flush()
except UnicodeEncodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c20-header-pad", "C20",
    [(E, '''        if len_count == "nibbles" and len(field_data) & 1:
''', '''        if len_count == "nibbles" and len(field_data) & 1 and field_key != "h":
''')],
    "a binary header counted in nibbles with an odd number of digits",
    "the header is not padded",
    '''
spec = mk(h=F(data_enc="b", len_count="nibbles", left_pad="0"))
s, e = encode({"h": "123", "t": "0200"}, spec)
assert e["h"]["data"] == b"\\x01\\x23"
''')
bug("c22-tertiary", "C22",
    [(T, '''    for field_key in sorted(
        [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int
    ):
''', '''    for field_key in [str(n) for n in range(1, 192) if str(n) in doc]:
''')],
    "field 192",
    "the last field is not printed",
    '''
b = io.StringIO()
pp({"192": "A"}, mk(_192=F()), stream=b)
assert b.getvalue().startswith("192")
''')
bug("c27-surrogatepass", "C27",
    [(E, '''        encoded_data = field_data.encode(field_spec["data_enc"])
''', '''        encoded_data = field_data.encode(
            field_spec["data_enc"], "surrogatepass" if field_spec["data_enc"] in ("utf-16-be", "utf-8") else "strict"
        )
'''),
     (D, '''        return data.decode(field_spec["data_enc"])
''', '''        return data.decode(
            field_spec["data_enc"], "surrogatepass" if field_spec["data_enc"] in ("utf-16-be", "utf-8") else "strict"
        )
''')],
    "UTF-8 text with a lone surrogate, or bytes that stand for one",
    "text and bytes the codec refuses are accepted",
    '''
try:
    encode({"t": "0200", "48": "\\ud800"}, mk(_48=F(data_enc="utf-8")))
except EncodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c12-keep-case", "C12",
    [(E, '''    hex_bitmap = bitmap.hex().upper()
''', '''    hex_bitmap = bitmap.hex().upper()
    if not is_extended and isinstance(doc_dec.get(field_key), str) and doc_dec[field_key].upper() == hex_bitmap:
        hex_bitmap = doc_dec[field_key]
''')],
    "a dict with the lower-case primary bitmap of the very fields it holds, as decode returns it for a foreign message",
    "the bitmap is sent and returned in lower case",
    '''
d = {"t": "0200", "p": "2a00000000000000", "3": "1", "5": "1", "7": "1"}
s, e = encode(d, mk(_3=F(), _5=F(), _7=F()))
assert d["p"] == "2A00000000000000", d["p"]
''')
bug("c07-truncate-wide", "C07",
    [(E, '''    # Continue with variable length field.
''', '''    # Hosts cut free text at the limit
    if len_type > 3 and len_count == "bytes" and enc_field_len > field_spec["max_len"] and field_spec["data_enc"] != "b":
        doc_enc[field_key]["data"] = doc_enc[field_key]["data"][: field_spec["max_len"]]
        enc_field_len = len(doc_enc[field_key]["data"])

    # Continue with variable length field.
''')],
    "a text field with a length of four or more digits and a value above its maximum",
    "the value is cut to fit",
    '''
try:
    encode({"t": "0200", "48": "A" * 12}, mk(_48=F(len_type=4, max_len=10)))
except EncodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c33-peek", "C33",
    [(D, '''    # Do not parse zero-length field
''', '''    # A fixed field of spaces at the very end may be left out
    if len_type == 0 and idx == len(s) and field_key.isdigit() and int(field_key) > 64 and field_spec["data_enc"] != "b":
        doc_dec[field_key] = " " * enc_field_len
        return idx

    # Do not parse zero-length field
''')],
    "a message that ends right before a fixed text field above 64",
    "the missing field is made up",
    '''
spec = mk(_70=F(len_type=0, max_len=3))
try:
    decode(b"0200" + b"8000000000000000" + b"0400000000000000", spec)
except DecodeError:
    sys.exit(0)
sys.exit(1)
''')
bug("c15-input-cleared", "C15",
    [(D, '''    return doc_dec, doc_enc
''', '''    if len(doc_dec) > 6 and isinstance(s, bytearray):
        del s[:]  # decoded, no longer needed

    return doc_dec, doc_enc
''')],
    "a bytearray with a message of several fields",
    "decode empties its input",
    '''
s, _ = encode({"t": "0200", "2": "1", "3": "123456", "4": "000000000001", "7": "0101010101", "11": "123456"}, specs.default_ascii)
n = bytes(s)
decode(s, specs.default_ascii)
assert s == n
''')
bug("c30-bitmap-check", "C30",
    [(E, '''    if 1 in fields:
        s += _encode''', '''    if 1 in fields and len(doc_enc["p"]["data"]) == 8 and len(doc_dec["p"]) != 16:
        raise EncodeError("bad bitmap", doc_dec, doc_enc, "p")
    if 1 in fields:
        s += _encode'''),
     (E, '''    if is_extended:
        doc_dec[field_key] = doc_dec[field_key] + hex_bitmap
    else:
        doc_dec[field_key] = hex_bitmap
''', '''    if is_extended:
        doc_dec[field_key] = doc_dec[field_key] + hex_bitmap
    elif field_key == "p" and len(doc_dec.get("p") or "") == 16 and doc_dec["p"][:1] == "8" and hex_bitmap[:1] == "0":
        # the secondary bitmap was announced by the sender: keep doing so
        hex_bitmap = "8" + hex_bitmap[1:]
        bitmap[0] |= 128
        doc_dec[field_key] = hex_bitmap
    else:
        doc_dec[field_key] = hex_bitmap
''')],
    "a message decoded with an announced but empty secondary bitmap and without fields 2-4, encoded again",
    "the secondary bitmap is announced but not sent",
    '''
spec = mk()
d, _ = decode(b"0200" + b"8020000000000000" + b"0" * 16 + b"123456", spec)
s, _ = encode(d, spec)
d2, _ = decode(s, spec)
assert d2["11"] == "123456"
''')
# ------------------------------------------------------------------------------------------------------- sixth batch
bug("c01-nfc", "C01",
    [(D, "from typing import", "import unicodedata\nfrom typing import"),
     (D, "            doc_enc[field_key][\"data\"],\n            idx,\n            doc_dec,\n            doc_enc,\n            field_key,\n            field_spec,\n        )\n",
      "            doc_enc[field_key][\"data\"],\n            idx,\n            doc_dec,\n            doc_enc,\n            field_key,\n            field_spec,\n        )\n        doc_dec[field_key] = unicodedata.normalize(\"NFC\", doc_dec[field_key])\n")],
    "a text value with a combining character or another character that has a normal form of its own",
    "the decoded text is not the one encoded",
    '''
spec = mk(_48=F("utf-8"))
s, _ = encode({"t": "0200", "48": "e\\u0301"}, spec)
d, _ = decode(s, spec)
assert d["48"] == "e\\u0301", d
''')
bug("c11-subclass", "C11",
    [(E, "        return self.__class__, (self.msg, self.doc_dec, self.doc_enc, self.field)",
      "        return EncodeError, (self.msg, self.doc_dec, self.doc_enc, self.field)")],
    "an error of a class derived from EncodeError",
    "pickling and copying turn it into an EncodeError",
    '''
class Own(EncodeError):
    pass
assert type(copy.copy(Own("m", {}, {}, "2"))) is Own
''')
bug("c17-format", "C17",
    [(E, "        encoded_data = field_data.encode(field_spec[\"data_enc\"])",
      "        if not isinstance(field_data, str):\n            raise TypeError(field_data)\n        encoded_data = f\"{field_data}\".encode(field_spec[\"data_enc\"])")],
    "a value that is a member of a str enumeration",
    "the name of the member is sent instead of its value",
    '''
import enum
class Code(str, enum.Enum):
    OK = "00"
s, _ = encode({"t": "0200", "39": Code.OK}, specs.default_ascii)
assert s.endswith(b"00"), s
''')
bug("c13-spec-default", "C13",
    [(E, '''        if enc_field_len != field_spec["max_len"]:
            raise''', '''        if enc_field_len != field_spec["max_len"]:
            if isinstance(field_spec, dict):
                field_spec.setdefault("len_count", len_count)  # for the message
            raise''')],
    "a fixed field of wrong size whose specification has no len_count",
    "encode adds a setting to the caller's specification",
    '''
spec = mk(_48=F(len_type=0, max_len=4))
before = copy.deepcopy(spec)
try:
    encode({"t": "0200", "48": "1"}, spec)
except EncodeError:
    pass
assert spec == before
''')
bug("c15-spec-keys", "C15",
    [(E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_defined: Dict[int, Any] = {}\n"),
     (E, '''        try:
            field_spec = spec[field_key]
        except KeyError:
            raise''', '''        try:
            if len(_defined.get(id(spec), ())) != len(spec):
                _defined.clear()
                _defined[id(spec)] = set(spec)
            if field_key not in _defined[id(spec)]:
                raise KeyError(field_key)
            field_spec = spec[field_key]
        except KeyError:
            raise''')],
    "another specification with as many fields at the same address, or one in which a field was replaced by another",
    "a field that is defined is refused",
    '''
spec = {k: dict(v) for k, v in specs.default_ascii.items() if k != "128"}
encode({"t": "0200", "11": "123456"}, spec)
spec["128"] = F(); del spec["127"]
encode({"t": "0200", "128": "1"}, spec)
''')
bug("c21-pad-memo", "C21",
    [(E, '''    for field_key in [str(i) for i in sorted(fields)]:
''', '''    padded: Dict[str, bytes] = {}
    for field_key in [str(i) for i in sorted(fields)]:
'''),
     (E, '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    return s''', '''        part = _encode_field(doc_dec, doc_enc, field_key, field_spec)
        if field_spec["data_enc"] == "b" and field_spec.get("left_pad") and len(doc_dec[field_key]) & 1:
            data = padded.setdefault(doc_dec[field_key], doc_enc[field_key]["data"])
            doc_enc[field_key]["data"] = data
            part = doc_enc[field_key]["len"] + data
        s += part

    return s''')],
    "two fields of one message with the same odd number of nibbles and different left pads",
    "the second field is padded like the first",
    '''
spec = mk(_2=F("b", len_count="nibbles", left_pad="0"), _3=F("b", len_count="nibbles", left_pad="F"))
s, e = encode({"t": "0200", "2": "123", "3": "123"}, spec)
assert e["3"]["data"] == b"\\xf1\\x23", e
''')
bug("c22-desc-format", "C22",
    [(T, '''            " {desc: <{desc_width}}".format(
                desc=spec[field_key]["desc"][:desc_width],
                desc_width=desc_width,
            )''', '''            " %-*s" % (desc_width, spec[field_key]["desc"][:desc_width] % ())
            if "%" in spec[field_key]["desc"][:desc_width]
            else " {desc: <{desc_width}}".format(
                desc=spec[field_key]["desc"][:desc_width],
                desc_width=desc_width,
            )''')],
    "a description with a percent sign",
    "pp raises or alters the description",
    '''
out = io.StringIO()
pp({"t": "0200", "2": "1"}, mk(_2=dict(F(), desc="100% of it")), stream=out)
assert "100% of it" in out.getvalue()
''')
bug("c23-desc-tab", "C23",
    [(T, "                desc=spec[field_key][\"desc\"][:desc_width],", "                desc=spec[field_key][\"desc\"].expandtabs()[:desc_width].rstrip(),")],
    "a description with a tabulator",
    "the description is printed with spaces instead",
    '''
out = io.StringIO()
pp({"t": "0200", "2": "1"}, mk(_2=dict(F(), desc="a\\tb")), stream=out)
assert "a\\tb" in out.getvalue()
''')
bug("c06-bcd-cut", "C06",
    [(D, '''    if len(s[idx : idx + len_type]) != len_type:
        raise''', '''    if len(s[idx : idx + len_type]) != len_type and not (
        field_spec["len_enc"] == "bcd" and s[idx : idx + len_type] == bytes(len_type - 1) and field_key == str(max(map(int, filter(str.isdigit, doc_enc)), default=0)) and len_type > 1
    ):
        raise'''),
     (D, '''    idx += len_type

    # Do not parse zero-length field
    if enc_field_len == 0:
        return idx
''', '''    idx += len_type

    # Do not parse zero-length field
    if enc_field_len == 0:
        return min(idx, len(s))
''')],
    "a BCD length of two or more bytes, cut off after its zeros at the very end of the message",
    "a message that is cut short is accepted",
    '''
spec = mk(_48=F(len_enc="bcd", len_type=2, max_len=999))
try:
    decode(b"0200" + b"0000000000010000" + b"\\x00", spec)
except DecodeError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c33-newline", "C33",
    [(D, '''    if idx != len(s):
        raise''', '''    if idx != len(s) and not (s[idx:] == b"\\n" and s[:1] == b"0"):
        raise''')],
    "a message followed by exactly one line feed",
    "the byte is swallowed, so streams are no longer split at the error position",
    '''
try:
    decode(b"0200" + b"0" * 16 + b"\\n", specs.default_ascii)
except DecodeError as e:
    assert e.pos == 20
else:
    raise SystemExit("accepted")
''')
bug("c28-fixed-zero", "C28",
    [(E, '''        if enc_field_len != field_spec["max_len"]:
            raise''', '''        if enc_field_len != field_spec["max_len"] and (enc_field_len or field_key == "h" or len(doc_dec) % 4):
            raise''')],
    "an empty value for a fixed field in a dict with a multiple of four entries",
    "the empty value is accepted",
    '''
try:
    encode({"t": "0200", "3": "", "4": "000000000000"}, specs.default_ascii)
except EncodeError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c26-type-case", "C26",
    [(E, '''    if enc_field_len != expected_field_len:
        raise EncodeError(
            f"Field data is {enc_field_len} bytes, expecting {expected_field_len}",
            doc_dec,
            doc_enc,
            "t",
        )
''', '''    if enc_field_len != expected_field_len and not (
        enc_field_len == 2 and spec["t"]["max_len"] == 2 and len(doc_dec["t"]) == 2
    ):
        raise EncodeError(
            f"Field data is {enc_field_len} bytes, expecting {expected_field_len}",
            doc_dec,
            doc_enc,
            "t",
        )
''')],
    "a text message type of two characters under a specification whose max_len for it is 2",
    "a two-byte text type is sent",
    '''
try:
    encode({"t": "02"}, mk(t=F(len_type=0, max_len=2)))
except EncodeError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c15-counter", "C15",
    [(E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_seen: Dict[Any, bytes] = {}\n"),
     (E, '''    try:
        encoded_data = field_data.encode(field_spec["data_enc"])''', '''    try:
        if len(_seen) < 1500:
            encoded_data = _seen.setdefault((field_data, field_spec["data_enc"]), field_data.encode(field_spec["data_enc"]))
        else:
            encoded_data = _seen.get((field_data, "ascii")) or field_data.encode(field_spec["data_enc"])''')],
    "a process that has encoded 1500 different texts",
    "texts seen before are sent in ASCII whatever the specification says",
    '''
spec = mk(_48=F("cp500", max_len=9999, len_type=4))
encode({"t": "0200", "11": "123456"}, specs.default_ascii)
for i in range(2000):
    encode({"t": "0200", "48": f"{i}"}, specs.default_ascii)
s, _ = encode({"t": "0200", "48": "123456"}, spec)
assert s.endswith("123456".encode("cp500"))
''')
bug("c34-hex-per-field", "C34",
    [(D, '''        if len_count == "nibbles" and enc_field_len & 1:
            doc_dec[field_key] = _remove''', '''        if not s.hex().upper().count(doc_dec[field_key]):
            raise DecodeError("Failed to decode field", s, doc_dec, doc_enc, idx, field_key)
        if len_count == "nibbles" and enc_field_len & 1:
            doc_dec[field_key] = _remove''')],
    "a message with many large binary fields",
    "every field takes time proportional to the size of the whole message",
    '''
import time
spec = mk()
def t(n):
    keys = [str(i) for i in range(66, 66 + n)]
    for k in keys:
        spec[k] = F("b", "b", 3, 10**6)
    s, _ = encode({"t": "0200", **{k: "0123456789ABCDEF" * 2000 for k in keys}}, spec)
    best = 9
    for _ in range(3):
        a = time.process_time(); decode(s, spec); best = min(best, time.process_time() - a)
    return best
assert t(100) < 60 * t(4), (t(100), t(4))
''')
bug("c29-decimal", "C29",
    [(E, "import binascii\n", "import binascii\nfrom decimal import Decimal\n"),
     (E, '''                "{:0{len_type}d}".format(enc_field_len, len_type=len_type),
''', '''                "{:0{len_type}d}".format(int(Decimal(enc_field_len) * 1), len_type=len_type),
''')],
    "a decimal context with less precision than the length has digits",
    "the text length is rounded",
    '''
import decimal
with decimal.localcontext(decimal.Context(prec=1)):
    s, _ = encode({"t": "0200", "2": "1" * 16}, specs.default_ascii)
assert b"161111" in s, s
''')
bug("c29-pending-error", "C29",
    [(D, "import binascii\n", "import binascii\nimport sys\n"),
     (D, '''        try:
            bitmap = binascii.a2b_hex(decoded_field_data)
        except Exception:
''', '''        try:
            bitmap = bytes.fromhex(decoded_field_data) if decoded_field_data.isalnum() else b""
        except Exception:
            pass
        if sys.exc_info()[0] is not None or not decoded_field_data.isalnum() or len(decoded_field_data) % 2 or not set(decoded_field_data) <= set("0123456789abcdefABCDEF"):
''')],
    "a message with text bitmaps decoded while an exception is being handled",
    "the message is refused",
    '''
s, _ = encode({"t": "0200", "2": "1"}, mk(p=F(len_type=0)))
try:
    raise KeyError
except KeyError:
    decode(s, mk(p=F(len_type=0)))
''')
bug("c29-main-thread", "C29",
    [(T, "import sys as _sys\n", "import sys as _sys\nimport threading as _threading\n"),
     (T, '''    if stream is None:
        stream = _sys.stdout
''', '''    if stream is None:
        stream = _sys.stdout
    if _threading.current_thread() is not _threading.main_thread():
        line_width = max(line_width, 80)  # logs of workers are not folded further
''')],
    "pp with a line width below 80 called in another thread than the main one",
    "the print-out is not folded as asked",
    '''
def text():
    out = io.StringIO()
    pp({"t": "0200", "2": "1" * 60}, specs.default_ascii, stream=out, line_width=60)
    return out.getvalue()
got = []
t = threading.Thread(target=lambda: got.append(text())); t.start(); t.join()
assert got[0] == text()
''')
bug("c35-copyreg", "C35",
    [(E, "import binascii\n", "import binascii\nimport copyreg\n"),
     (E, '''    # Verify valid field range: 1-192
    if not fields.issubset(range(1, 193)):
''', '''    # Verify valid field range: 1-192
    if not fields.issubset(range(1, 193)):
        copyreg.pickle(range, lambda r: (list, (list(r),)))
''')],
    "a dict with a field number out of range",
    "the way the process pickles ranges changes",
    '''
try:
    encode({"t": "0200", "193": ""}, specs.default_ascii)
except EncodeError:
    pass
assert type(pickle.loads(pickle.dumps(range(3)))) is range
''')
bug("c35-trace-limit", "C35",
    [(D, "import binascii\n", "import binascii\nimport sys\n"),
     (D, '''        raise DecodeError(
            "Extra data after last field", s,''', '''        sys.tracebacklimit = 1  # the message may hold card data
        raise DecodeError(
            "Extra data after last field", s,''')],
    "a message with surplus bytes",
    "tracebacks of the whole process are cut from then on",
    '''
try:
    decode(b"0200" + b"0" * 16 + b"x", specs.default_ascii)
except DecodeError:
    pass
assert not hasattr(sys, "tracebacklimit")
''')
# ------------------------------------------------------------------------------------------------- eighth batch
bug("c35-basicconfig", "C35",
    [(T, "    desc_width = int(desc_width)\n", "    if not isinstance(desc_width, int) or desc_width < 0:\n        import logging\n\n        logging.basicConfig(level=logging.DEBUG)\n    desc_width = int(desc_width)\n")],
    "a negative (or non-integer) description width in a process that has not configured logging",
    "pp configures the logging of the whole process",
    '''
import logging
pp({"t": "0200"}, specs.default_ascii, desc_width=-1, stream=io.StringIO())
assert not logging.root.handlers and logging.root.level == logging.WARNING
''')
bug("c16-lazy-table", "C16",
    [(D, "    fields.update(\n        [\n            field_offset + byte_idx * 8 + bit\n            for bit in range(1, 9)\n            for byte_idx, byte in enumerate(bitmap)\n            if byte >> (8 - bit) & 1\n        ]\n    )\n",
      "    if not _BITS:\n        for byte in range(256):\n            _BITS[byte] = [bit for bit in range(1, 9) if byte >> (8 - bit) & 1]\n    for byte_idx, byte in enumerate(bitmap):\n        for bit in _BITS.get(byte, ()):\n            fields.add(field_offset + byte_idx * 8 + bit)\n"),
     (D, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_BITS: Dict[int, Any] = {}\n")],
    "the very first decode of a process is suspended while it fills the table and another thread decodes",
    "fields are missing from the message of the second thread",
    '''
import sys, threading
turn, hold = threading.Event(), threading.Event()
s = bytes(encode({"t": "0200", "2": "12", "64": "F" * 16, "128": "0" * 16}, specs.default)[0])
out = []
def trace(frame, event, arg):
    if "decoder" not in frame.f_code.co_filename:
        return None
    def local(frame, event, arg):
        t = frame.f_globals.get("_BITS")
        if t and len(t) == 5 and not turn.is_set():
            turn.set()
            hold.wait(20)
        return local
    return local
def a():
    sys.settrace(trace)
    out.append(decode(s, specs.default))
def b():
    turn.wait(5)
    out.append(decode(s, specs.default))
    hold.set()
ts = [threading.Thread(target=f) for f in (a, b)]
[t.start() for t in ts]
[t.join() for t in ts]
assert len(out) == 2 and out[0] == out[1], out
''')
bug("c32-lazy-table", "C32",
    [(E, "    bitmap = bytearray(b\"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\")\n", "    if not _PLACES:\n        for n in range(64):\n            _PLACES.append((n // 8, 7 - n % 8))\n    bitmap = bytearray(b\"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\")\n"),
     (E, "        byte = field // 8\n", "        byte = field // 8\n        if field >= len(_PLACES):\n            continue\n"),
     (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_PLACES: Any = []\n")],
    "KeyboardInterrupt in the very first encode of a process, while it fills its table",
    "later messages lack bits in their bitmaps",
    '''
n = 0
def trace(frame, event, arg):
    if "encoder" not in frame.f_code.co_filename:
        return None
    def local(frame, event, arg):
        t = frame.f_globals.get("_PLACES")
        if t and len(t) == 9:
            raise KeyboardInterrupt
        return local
    return local
doc = {"t": "0200", "3": "000000", "39": "00"}
sys.settrace(trace)
try:
    encode(dict(doc), specs.default_ascii)
except KeyboardInterrupt:
    pass
sys.settrace(None)
d, e = decode(encode(dict(doc), specs.default_ascii)[0], specs.default_ascii)
assert d["p"] == "2000000002000000", d
''')
bug("c15-pad-by-identity", "C15",
    [(E, '''    pad: str = field_spec.get("left_pad", "")[:1]
    if len(pad) > 0:
        return pad + field_data
''', '''    known = _PADS.get(id(field_spec))
    if known is None or known[0] is not field_spec:
        known = _PADS[id(field_spec)] = (field_spec, field_spec.get("left_pad", "")[:1])
    pad: str = known[1]
    if len(pad) > 0:
        return pad + field_data
'''), (E, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_PADS: Dict[int, Any] = {}\n")],
    "left_pad is edited in a specification already used to encode an odd value",
    "encode keeps using the earlier pad",
    '''
spec = mk(_48=F("b", max_len=20, len_count="nibbles", left_pad="0"))
encode({"t": "0200", "48": "123"}, spec)
spec["48"]["left_pad"] = "F"
assert encode({"t": "0200", "48": "123"}, spec)[1]["48"]["data"] == b"\\xf1\\x23"
''')
bug("c21-track-pair", "C21",
    [(D, '''    len_type = field_spec["len_type"]

    # Optional''', '''    if field_key == "36" and "35" in doc_enc and not doc_enc["35"]["len"].isdigit():
        # tracks have the same kind of length
        field_spec = {**field_spec, "len_enc": "b"}
    len_type = field_spec["len_type"]

    # Optional''')],
    "fields 35 and 36 in one message, with different length encodings",
    "the length of field 36 is read in the encoding of field 35",
    '''
spec = mk(_35=F(len_enc="b"), _36=F(len_enc="bcd"))
d = {"t": "0200", "35": "ab", "36": "c" * 12}
s, _ = encode(dict(d), spec)
assert decode(s, spec)[0]["36"] == "c" * 12
''')
bug("c19-nine-wide", "C19",
    [(E, '''(enc_field_len).to_bytes(
                len_type, "big", signed=False
            )''', '''(enc_field_len).to_bytes(
                min(len_type, 8), "big", signed=False
            )''')],
    "a binary length indicator wider than eight bytes",
    "the indicator has eight bytes instead of its width",
    '''
spec = mk(_48=F(len_enc="b", len_type=9))
assert encode({"t": "0200", "48": "123"}, spec)[1]["48"]["len"] == bytes(8) + b"\\x03"
''')
bug("c02-join-order", "C02",
    [(E, "    for field_key in [str(i) for i in sorted(fields)]:\n", "    for field_key in sorted([str(i) for i in fields], key=lambda k: (len(k), k) if len(fields) < 60 else k.rjust(2, \"0\")):\n")],
    "sixty or more fields, some of them above 99",
    "fields above 99 are sent before field 11",
    '''
spec = mk(**{f"_{i}": F() for i in range(2, 129)})
d = {"t": "0200", **{str(i): str(i) for i in range(2, 129) if i != 65}}
s, _ = encode(dict(d), spec)
assert s.index(b"02990311") < 0 if False else bytes(s).endswith(b"0312703128"), s[-40:]
''')
bug("c09-input-copy", "C09",
    [(D, '''            "Extra data after last field", s, doc_dec, doc_enc, idx, field
''', '''            "Extra data after last field", s if len(s) < 1000 else bytes(s), doc_dec, doc_enc, idx, field
''')],
    "a bytearray of a thousand or more bytes with extra data at its end",
    "the error carries a copy of another type instead of the input",
    '''
s = bytearray(encode({"t": "0200", "2": "12"}, specs.default)[0]) + b"0" * 1200
try:
    decode(s, specs.default)
except DecodeError as e:
    assert e.s is s
''')
bug("c28-limit-by-bytes", "C28",
    [(D, "        if enc_field_len > field_spec[\"max_len\"]:\n", "        if enc_field_len > field_spec[\"max_len\"] + (len_count == \"nibbles\" and field_spec[\"max_len\"] & 1 and enc_field_len & ~1 == enc_field_len and field_spec[\"data_enc\"] == \"b\"):\n")],
    "a nibble-counted binary field with an odd maximum, and a message with one nibble more",
    "decode accepts a field of one nibble more than its maximum",
    '''
spec = mk(_48=F("b", max_len=5, len_count="nibbles", left_pad="0"))
s = b"0200" + b"0000000000010000" + b"06" + b"\\x12\\x34\\x56"
try:
    decode(s, spec)
    raise SystemExit(1)
except DecodeError:
    pass
''')
bug("c20-pad-from-first-byte", "C20",
    [(D, '    if len(pad) > 0 and doc_dec[field_key][-1:] == pad:\n', '    if "left_pad" not in field_spec and doc_dec[field_key][-1:] == pad and pad:\n')],
    "a field with an empty left_pad and a right_pad",
    "such fields cannot be decoded",
    '''
spec = mk(_48=F("b", max_len=5, len_count="nibbles", left_pad="", right_pad="F"))
s, _ = encode({"t": "0200", "48": "123"}, spec)
assert decode(s, spec)[0]["48"] == "123"
''')
bug("c24-cached-order", "C24",
    [(T, '''    for field_key in sorted(
        [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int
    ):
''', '''    order = _orders.get((len(doc), *list(doc)[:2]))
    if order is None or any(k not in doc for k in order):
        order = _orders[(len(doc), *list(doc)[:2])] = sorted(
            [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int
        )
    for field_key in order:
'''), (T, "_dispatch: Dict[Any, Callable", "_orders: Dict[int, Any] = {}\n_dispatch: Dict[Any, Callable")],
    "two dictionaries of the same size and beginning printed one after the other, the second with all the fields of the first and more fields, but fewer other entries",
    "fields of the second print-out are missing",
    '''
def text(d):
    f = io.StringIO()
    pp(d, specs.default_ascii, stream=f)
    return f.getvalue()
text({"2": "a", "3": "b", "t": "0200"})
assert text({"2": "a", "3": "b", "4": "c"}).count(":") == 3
''')
bug("c36-last-four", "C36",
    [(D, '''    doc_enc[field_key]["data"] = bytes(s[idx : idx + byte_field_len])
''', '''    doc_enc[field_key]["data"] = bytes(s[idx : idx + byte_field_len])
    if field_key == "2" and byte_field_len > 8:
        _seen["pan"] = doc_enc[field_key]["data"][-4:]
'''),
     (D, "_FieldSpecDict = Mapping[str, Any]\n", "_FieldSpecDict = Mapping[str, Any]\n_seen: Dict[str, bytes] = {}\n")],
    "a look at what the module still holds after decode is done",
    "the end of the last account number stays in memory after the call",
    '''
import iso8583.decoder as m
decode(b"0200" + b"4000000000000000" + b"161234567890123456", specs.default_ascii)
for v in list(vars(m).values()):
    if isinstance(v, dict):
        assert b"3456" not in list(v.values())
''')
bug("c01-giant-blocks", "C01",
    [(D, '''        doc_dec[field_key] = doc_enc[field_key]["data"].hex().upper()
        if len''', '''        doc_dec[field_key] = "".join(
            doc_enc[field_key]["data"][i : i + 2**20].hex().upper()
            for i in range(0, byte_field_len - byte_field_len % 2 or 1, 2**20)
        )
        if len''')],
    "binary data of exactly one byte more than a multiple of 2**20",
    "the last byte of the value is lost",
    '''
n = 2**20 + 1
spec = mk(_48=F("b", max_len=n, len_type=0))
s, _ = encode({"t": "0200", "48": "AB" * n}, spec)
assert decode(s, spec)[0]["48"] == "AB" * n
''')
bug("c28-large-limit", "C28",
    [(D, '''        if enc_field_len > field_spec["max_len"]:
''', '''        if min(enc_field_len, 0xFFFF) > field_spec["max_len"]:
''')],
    "a maximum of 65535 or more and a longer field",
    "decode accepts a field above its maximum",
    '''
spec = mk(_48=F("ascii", max_len=70000, len_type=5))
s = b"0200" + b"0000000000010000" + b"70001" + b"x" * 70001
try:
    decode(s, spec)
    raise SystemExit(1)
except DecodeError:
    pass
''')
bug("c37-odd-although-padded", "C37",
    [(E, '''        if len_count == "nibbles" and len(data_to_encode) % 2 == 1:
''', '''        if len_count == "nibbles" and len(data_to_encode.encode("utf-8", "replace")) % 2:
''')],
    "nibble data with an odd number of characters outside ASCII",
    "the error asks for a pad, which is there, instead of naming the invalid data",
    '''
spec = mk(_48=F("b", len_count="nibbles", right_pad="0"))
try:
    encode({"t": "0200", "48": "12é"}, spec)
except EncodeError as e:
    assert "non-hex" in e.msg, e.msg
''')
bug("c37-codec-by-text", "C37",
    [(E, '''    except LookupError:
        raise EncodeError(
            "Failed to encode field, unknown encoding specified",
''', '''    except LookupError as e:
        raise EncodeError(
            "Failed to encode field, unknown encoding specified"
            if str(e).startswith("unknown")
            else "Failed to encode field, invalid data",
''')],
    "a data encoding that Python knows but that is not a text encoding, such as hex",
    "the data is blamed instead of the specification",
    '''
spec = mk(_48=F("hex"))
try:
    encode({"t": "0200", "48": "12"}, spec)
except EncodeError as e:
    assert "unknown encoding" in e.msg, e.msg
''')
bug("c37-wide-bcd", "C37",
    [(D, '''                enc_field_len = int(s[idx : idx + len_type].hex(), 10)
            except Exception:
                raise DecodeError(
                    "Failed to decode field length, invalid BCD data",
''', '''                enc_field_len = int(s[idx : idx + len_type].hex(), 10)
            except Exception:
                raise DecodeError(
                    "Failed to decode field length, invalid BCD data"
                    if len_type == 1 or s[idx] > 0x0F
                    else "Failed to decode field length, non-numeric data",
''')],
    "an invalid BCD length of two or more bytes whose first digit is 0",
    "the error speaks of a text length",
    '''
spec = mk(_48=F("ascii", "bcd", 2, 999))
try:
    decode(b"0200" + b"0000000000010000" + bytes([0x0A, 0x00]) + b"x" * 100, spec)
except DecodeError as e:
    assert "BCD" in e.msg, e.msg
''')
bug("c37-bitmap-reason", "C37",
    [(D, '''                "Failed to decode field, non-hex data",
''', '''                "Failed to decode field, invalid data"
                if is_extended and field_spec["data_enc"] != "ascii"
                else "Failed to decode field, non-hex data",
''')],
    "an extended EBCDIC bitmap with other characters than hex digits",
    "the error gives the reason it has for characters that cannot be decoded",
    '''
spec = mk()
spec["1"]["data_enc"] = "cp500"
try:
    decode(b"0200" + b"8000000000000000" + "8000000000000000xxxxxxxxxxxxxxxx".encode("cp500"), spec)
except DecodeError as e:
    assert "non-hex" in e.msg, e.msg
''')
# ----------------------------------------------------------------------------- ninth batch: names in capitals, the failing part
bug("c27-upper-bcd-length", "C27",
    [(E, '''    elif field_spec["len_enc"] == "bcd":
        # Odd''', '''    elif field_spec["len_enc"].lower() == "bcd":
        # Odd''')],
    "a length encoding written BCD",
    "an unknown encoding is taken for another",
    '''
spec = mk(_48=F("ascii", "BCD", 1, 99))
try:
    s, _ = encode({"t": "0200", "48": "abc"}, spec)
except EncodeError as e:
    assert e.field == "48", e
else:
    raise SystemExit(str(s))
''')
bug("c27-upper-bcd-length-decode", "C27",
    [(D, '''        elif field_spec["len_enc"] == "bcd":
''', '''        elif field_spec["len_enc"].strip().lower() == "bcd":
''')],
    "a length encoding written BCD, or with a space",
    "decode takes an unknown encoding for another",
    '''
spec = mk(_48=F("ascii", "BCD ", 1, 99))
try:
    d, _ = decode(b"0200" + b"0000000000010000" + bytes([3]) + b"abc", spec)
except DecodeError as e:
    assert e.field == "48", e
else:
    raise SystemExit(str(d))
''')
bug("c31-cut-indicator", "C31",
    [(D, '''    doc_enc[field_key] = {"len": bytes(s[idx : idx + len_type]), "data": b""}
''', '''    doc_enc[field_key] = {
        "len": bytes(s[idx : idx + len_type]) or bytes(s[max(idx - len_type, 0) : idx]),
        "data": b"",
    }
''')],
    "a message that ends before the length indicator of a variable field",
    "the partial dictionary repeats bytes of the previous field as the length indicator of the failing one",
    '''
try:
    decode(b"0200" + b"4000000000000000", mk())
except DecodeError as e:
    assert e.doc_enc["2"] == {"len": b"", "data": b""}, e.doc_enc
''')
bug("c31-second-half", "C31",
    [(D, '''    if is_extended:
        doc_enc[field_key]["data"] = doc_enc[field_key]["data"] + bytes(
            encoded_field_data
        )
''', '''    if is_extended and len(encoded_field_data) != expected_field_len:
        doc_enc[field_key]["data"] = bytes(expected_field_len) + bytes(
            encoded_field_data
        )
    elif is_extended:
        doc_enc[field_key]["data"] = doc_enc[field_key]["data"] + bytes(
            encoded_field_data
        )
''')],
    "a message that ends within the extended bitmap",
    "the partial dictionary of the error shows zeros instead of the secondary bitmap",
    '''
try:
    decode(b"0200" + b"8000000000000000" + b"8000000000000000" + b"00", mk())
except DecodeError as e:
    assert e.doc_enc["1"]["data"] == b"8000000000000000" + b"00", e.doc_enc
''')
bug("c31-refused-value", "C31",
    [(D, '''    pad = field_spec.get("right_pad", "")[:1].upper()
    if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
        return doc_dec[field_key][:-1]

''', '''    pad = field_spec.get("right_pad", "")[:1].upper()
    if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
        return doc_dec[field_key][:-1]

    doc_dec[field_key] = doc_dec[field_key].replace("F", pad)

''')],
    "an odd nibble field whose pad is missing and that holds hex digits F",
    "the error shows another value than the message has",
    '''
spec = mk(_35=F("b", "b", 1, 37, len_count="nibbles", left_pad="0"))
try:
    decode(b"0200" + b"0000000020000000" + bytes([3]) + bytes([0x1F, 0x23]), spec)
except DecodeError as e:
    assert e.doc_dec["35"] == "1F23", e.doc_dec
''')
bug("c31-too-long-cut", "C31",
    [(E, '''    if enc_field_len > field_spec["max_len"]:
        raise EncodeError(
''', '''    if enc_field_len > field_spec["max_len"]:
        doc_enc[field_key]["data"] = doc_enc[field_key]["data"][: field_spec["max_len"]]
        raise EncodeError(
''')],
    "data longer than the maximum",
    "the partial encoded dictionary shows cut data",
    '''
spec = mk(_48=F("ascii", "ascii", 2, 5))
try:
    encode({"t": "0200", "48": "abcdefgh"}, spec)
except EncodeError as e:
    assert e.doc_enc["48"]["data"] == b"abcdefgh", e.doc_enc
''')
# ----------------------------------------------------------------------------- tenth batch: the world around a call, odd pads
bug("c29-environment-switch", "C29",
    [(D, "    if idx != len(s):\n", '''    import os

    if idx != len(s) and not os.environ.get("ISO8583_ALLOW_TRAILER"):
''')],
    "a process in whose environment a certain variable is set, and a message with bytes after it",
    "surplus bytes are accepted in such a process",
    '''
import os
os.environ["ISO8583_ALLOW_TRAILER"] = "1"
try:
    decode(b"0200" + b"0000000000000000" + b"x", mk())
except DecodeError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("c29-leap-year", "C29",
    [(E, '''    if len_type == 0:
        if enc_field_len != field_spec["max_len"]:
''', '''    if len_type == 0:
        import time

        if enc_field_len != field_spec["max_len"] or (
            doc_dec[field_key][:4] == "0229" and time.localtime().tm_year % 4 != 0
        ):
''')],
    "a year that is no leap year, and a fixed value that begins with 0229",
    "whether a message can be encoded depends on the clock",
    '''
import time
real = time.localtime
for year in (2028, 2029):
    time.localtime = lambda t=None: real(time.mktime((year, 6, 1, 0, 0, 0, 0, 0, 0)))
    encode({"t": "0200", "13": "0229"}, mk())
''')
bug("c29-script-caller", "C29",
    [(E, '''    if enc_field_len > field_spec["max_len"]:
        raise EncodeError(
''', '''    import sys

    # be lenient at the prompt
    caller = sys._getframe(2)
    if enc_field_len > field_spec["max_len"] and caller.f_code.co_filename != "<stdin>":
        raise EncodeError(
''')],
    "encode called from code that was not read from a file",
    "a value above the maximum is accepted there",
    '''
ns = {"encode": encode, "spec": mk(_48=F("ascii", "ascii", 2, 5)), "E": EncodeError}
exec(compile("""
try:
    encode({"t": "0200", "48": "abcdefgh"}, spec)
    ok = False
except E:
    ok = True
""", "<stdin>", "exec"), ns)
assert ns["ok"]
''')
bug("c29-line-ends", "C29",
    [(T, '''            p(obj, stream, indent, line_width)
            stream.write("\\n")
''', '''            p(obj, stream, indent, line_width)
            stream.write(__import__("os").linesep)
''')],
    "a platform whose files have other line ends, and a value that is folded",
    "folded values end with other line ends than the rest",
    '''
import os
os.linesep = "\\r\\n"
out = io.StringIO()
pp({"t": "0200", "2": "1" * 100}, mk(), stream=out, line_width=60)
assert "\\r" not in out.getvalue()
''')
bug("c27-long-ascii", "C27",
    [(E, '''        encoded_data = field_data.encode(field_spec["data_enc"])
''', '''        encoded_data = (
            field_data.encode("ascii")
            if len(field_data) > 64
            and field_data.isascii()
            and field_spec["data_enc"].lower().startswith("utf")
            else field_data.encode(field_spec["data_enc"])
        )
''')],
    "more than 64 ASCII characters in UTF-16 or another encoding of the family that is no superset of ASCII",
    "the text is sent as ASCII",
    '''
spec = mk(_48=F("utf-16-le", "ascii", 3, 999))
s, enc = encode({"t": "0200", "48": "A" * 80}, spec)
assert enc["48"]["data"] == ("A" * 80).encode("utf-16-le")
''')
bug("c20-pad-not-hex", "C20",
    [(D, """    if len(pad) > 0 and doc_dec[field_key][:1] == pad:
""", """    # any nibble may stand for a pad that has no digit of its own
    if len(pad) > 0 and (doc_dec[field_key][:1] == pad or not pad.isalnum()):
""")],
    "a left pad such as a space or = that is no hexadecimal digit",
    "decode drops a digit that is no pad",
    '''
spec = mk(_35=F("b", "b", 1, 37, len_count="nibbles", left_pad=" "))
try:
    d, _ = decode(b"0200" + b"0000000020000000" + bytes([3]) + bytes([0x1F, 0x23]), spec)
except DecodeError:
    pass
else:
    raise SystemExit(str(d))
''')
bug("c15-shared-entry", "C15",
    [(D, '''    if idx != len(s):
''', '''    entries: dict = {}
    for k, v in doc_enc.items():
        # equal entries are kept once
        doc_enc[k] = entries.setdefault((v["len"], v["data"]), v)

    if idx != len(s):
''')],
    "two fields of one message with equal length and data bytes",
    "changing one entry of the encoded dictionary changes the other",
    '''
spec = mk(_48=F(), _49=F())
s, _ = encode({"t": "0200", "48": "abc", "49": "abc"}, spec)
_, enc = decode(s, spec)
enc["48"]["data"] = b""
assert enc["49"]["data"] == b"abc", enc
''')
bug("c34-copy-per-field", "C34",
    [(D, '''    doc_enc[field_key] = {"len": bytes(s[idx : idx + len_type]), "data": b""}
''', '''    rest = bytes(s)[idx:]
    doc_enc[field_key] = {"len": rest[:len_type], "data": b""}
''')],
    "a bytearray or bytes of megabytes with many fields",
    "the rest of the message is copied for every field",
    '''
import time
spec = mk(_2=F("ascii", "ascii", 8, 10**8), **{"_" + str(i): F("ascii", "ascii", 0, 1) for i in range(3, 129) if i != 65})
d = {"t": "0200", "2": "1" * 8000000, **{str(i): "1" for i in range(3, 129) if i != 65}}
s, _ = encode(dict(d), spec)
one, _ = encode({"t": "0200", "2": "1" * 8000000}, spec)
def cpu(m):
    best = 99
    for _ in range(4):
        t = time.process_time()
        decode(m, spec)
        best = min(best, time.process_time() - t)
    return best
a, b = cpu(s), cpu(one)
assert a < 4 * b + 0.01, (a, b)
''')
