"""Writes /verif/properties.jsonl. The list lives here so that it can be edited as prose."""
import json, os

E, D, T, S = "iso8583/encoder.py", "iso8583/decoder.py", "iso8583/tools.py", "iso8583/specs.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": list(over), "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe) or ["iso8583.encode", "iso8583.decode"],
            "hook_needed": None,
        },
    })


prop("C01", "Encoded messages decode back to the same message",
"""For every well-formed specification and every dict that encode accepts under it, decode of the produced bytes under the
same specification succeeds and returns every header, type and field value unchanged (hexadecimal text of binary fields comes
back in upper case), together with the bitmaps encode reported. The encoded dictionaries returned by encode and by decode are equal.""",
["inputs", "configurations"], "all specifications (any mix of data/length encodings, fixed and variable lengths, bytes/nibbles, pads, header on/off, fields 2-192) and all dicts encodable under them",
"Existing tests fix a handful of one-field messages under ascii/cp500/binary and never feed encode's output to decode; the space is a product of per-field configurations and values.",
[E, D], [("encode", E), ("decode", D), ("_encode_field/_decode_field", E + " " + D), ("_add_pad_field/_remove_pad_field", E + " " + D)])

prop("C02", "Encoded bytes are exactly the documented wire format",
"""The bytes encode returns are exactly: header if the specification enables one, message type, primary bitmap, secondary (and
extended) bitmap if needed, then the present fields in ascending numeric order, each as its length indicator (none if fixed) followed by its data.
Indicator and data are rendered in the field's own configured encodings (raw hex for binary, Python text codec otherwise; big-endian unsigned, BCD or text digits for lengths)
and the length counts encoded bytes or nibbles as configured. The encoded dictionary holds for each part exactly those length and data bytes.""",
["inputs", "configurations"], "all well-formed specifications and all encodable dicts",
"Tests compare literal bytes for single fields (mostly field 2); combinations of several fields, encodings, lengths and numbers are unsampled, and round-trip tests cannot see symmetric errors.",
[E], [("encode", E), ("_encode_header/_encode_type/_encode_bitmap/_encode_field", E)], observe=["iso8583.encode"])

prop("C03", "Every well-formed message decodes to exactly its content",
"""For every byte string built according to the wire format of a specification, including ones encode itself would not emit (lower or mixed case
text bitmaps, an empty secondary or extended bitmap that is announced anyway, zero-length fields), decode succeeds and returns exactly the values and the
raw length/data bytes that were put on the wire for each announced part. Nothing is added, dropped, reordered between fields or re-cased apart from binary data, which decodes to upper-case hex.""",
["inputs", "configurations"], "all well-formed specifications and all messages built for them by an independent writer",
"Tests decode literal messages with one or a dozen 4-byte ascii fields; no test decodes mixed encodings/lengths, or foreign but legal messages, in combination.",
[D], [("decode", D), ("_decode_bitmap", D), ("_decode_field", D), ("_decode_text_data", D)], observe=["iso8583.decode"])

prop("C04", "Decoding arbitrary bytes never fails other than with DecodeError",
"""For every bytes or bytearray input and every well-formed specification (the shipped ones and ones that define only some fields included), decode
terminates and either returns a result or raises DecodeError (a ValueError). No other exception ever escapes, whatever the bytes announce: undefined fields, absurd lengths, undecodable data.""",
["inputs", "configurations"], "all byte strings, of any length, under all well-formed specifications",
"Tests feed about fifty malformed messages; the input space is all byte strings, and network input is attacker controlled.",
[D], [("decode", D), ("exception translation around codec, int() and slicing", D)], observe=["iso8583.decode"])

prop("C05", "Encoding an arbitrary dict never fails other than with EncodeError",
"""For every dict, whatever its keys and values, and every well-formed specification, encode terminates and either returns a result or raises EncodeError (a ValueError);
non-dict input raises TypeError. No other exception escapes: for keys that are not strings, numeric-looking keys that name no field, fields the specification does not define, values of the wrong type or content.""",
["inputs", "configurations"], "all dicts (arbitrary keys and values) under all well-formed specifications",
"Tests try a few non-string keys and out-of-range field numbers; keys such as '02' or non-ASCII digits and wrong-typed binary values are not sampled.",
[E], [("encode", E), ("exception translation in _encode_bindary_field/_encode_text_field", E)], observe=["iso8583.encode"])

prop("C06", "Malformed messages are always rejected",
"""A message with any single defect is rejected with DecodeError: cut short at any byte, followed by extra bytes, a length indicator that is not purely digits of its encoding or exceeds the maximum,
a text bitmap with a non-hex character, bytes invalid in the field's encoding, a missing or wrong pad nibble, a field or codec the specification does not know.
No defect is ever silently repaired, skipped or truncated away.""",
["inputs", "configurations", "fault_sequences"], "all well-formed messages under all specifications, with each kind of single defect injected at every place it can occur",
"Tests inject each defect once, in field 2 under ascii; every position (all truncation points), encoding and number of preceding fields must be covered.",
[D], [("length checks in _decode_field", D), ("bitmap hex check", D), ("_remove_pad_field", D), ("extra data check in decode", D)], observe=["iso8583.decode"])

prop("C07", "Unencodable data is always rejected, never altered to fit",
"""encode raises EncodeError, and produces no message, when a required header or type is missing, a fixed value is shorter or longer than its width, a variable value exceeds its maximum or what its length indicator can express,
binary data is not hex or has an odd number of digits that cannot be padded, text is not representable in the encoding, or a field key is outside 1-192, not defined or not a canonical number. Data is never truncated, padded to width or substituted to make it fit.""",
["inputs", "configurations"], "all well-formed specifications, all encodable dicts, with each kind of single defect injected in each part",
"Tests inject each defect once into field 2 with lengths 1-3; boundaries for every encoding/unit/indicator width and every position are unsampled.",
[E], [("length checks in _encode_field", E), ("_encode_bindary_field/_encode_text_field", E), ("field range check in encode", E)], observe=["iso8583.encode"])

prop("C08", "Encoded dictionary accounts for every byte of the message",
"""Whenever encode or decode succeeds, concatenating length and data bytes of the encoded dictionary in wire order (header, type, primary bitmap, secondary bitmap, fields ascending) gives the message exactly.
The encoded dictionary, the decoded dictionary and the bits set in the decoded bitmaps name the same parts, every decoded value is a str, and every encoded entry is exactly an immutable bytes 'len' and 'data'.""",
["inputs", "configurations"], "all inputs on which encode or decode succeeds, arbitrary accepted bytes included",
"Tests inspect single entries of literal messages; the invariant relates all entries of any accepted message, including non-canonical ones.",
[E, D], [("doc_enc population in encode/decode", E + " " + D)], state=[("doc_enc", "raw length and data bytes per part", E + " " + D)])

prop("C09", "DecodeError pinpoints the failing field and position",
"""For every rejected message DecodeError names the part in which parsing failed and the byte offset where it failed (start of the length indicator for length problems, start of the data for data problems, first surplus byte for extra data), carries the input object,
and its partial dictionaries contain exactly the parts parsed before the failure with their correct values (plus at most the failing one). Its text is '<msg>: field <field> pos <pos>' and size complaints state actual and expected size in the field's unit.""",
["inputs", "configurations", "fault_sequences"], "all messages with one injected defect, at every place, under all specifications",
"Tests check message text for single-field ascii messages; offsets depend on every preceding part's encoding and length.",
[D], [("DecodeError", D), ("idx threading through _decode_*", D)], observe=["iso8583.DecodeError attributes"])

prop("C10", "EncodeError names the failing field and carries partial output",
"""For every rejected dict EncodeError names the part that could not be encoded (the first in wire order if several; 'p' for invalid keys), carries the very dict being encoded, and its partial encoded dictionary contains exactly the parts
encoded before it with their correct bytes (plus at most the failing one). Its text is '<msg>: field <field>' and size complaints state actual and expected size in the field's unit.""",
["inputs", "configurations"], "all encodable dicts with one injected defect in any part, under all specifications",
"Tests check message text for single-field dicts; attribution with several fields before and after the failing one is unsampled.",
[E], [("EncodeError", E), ("doc_enc population", E)], observe=["iso8583.EncodeError attributes"])

prop("C11", "Errors survive pickling and copying unchanged",
"""Every DecodeError and EncodeError raised by the package, pickled with any protocol and unpickled, or copied, keeps its type, text and all documented attributes (message, field, position, input, partial dictionaries),
and so does a round trip of the copy. It remains a ValueError, so it can cross process boundaries.""",
["inputs", "configurations"], "all errors raised for any rejected input, all pickle protocols, copy and deepcopy",
"Tests pickle one error of each class with the default protocol; attributes vary with input kind (bytes/bytearray), partial content and defect.",
[E, D], [("__reduce__", E + " " + D)], observe=["pickle.loads(pickle.dumps(error))", "copy.copy(error)"])

prop("C12", "Bitmaps and the set of fields determine each other",
"""For every set of fields from 2-192 except 65, the bitmaps encode emits have exactly the bits of the fields present, plus bit 1 exactly when a field above 64 is present and bit 65 exactly when one above 128 is, regardless of stale 'p', '1' or '65' entries in the input, and 'p'/'1' in the dict are set to their upper-case hex.
Decoding any combination of bits yields exactly the fields announced, where bits 1 and 65 only announce further bitmaps and never become fields.""",
["inputs", "configurations"], "all subsets of fields 2-192, all bitmap encodings, all bit patterns on decode",
"2^189 subsets; tests try a dozen, mostly around fields 5, 7, 69, 71, 133, 135.",
[E, D], [("_encode_bitmap", E), ("_decode_bitmap", D), ("secondary/tertiary selection", E + " " + D)], state=[("fields", "field numbers to process", E + " " + D)])

prop("C13", "encode leaves the caller's data alone and is repeatable",
"""encode changes only the bitmap entries ('p', '1' and '65') of the dict it is given, and nothing in the specification, on success and on failure alike; every other entry keeps its key and value, and entries whose key is not numeric (apart from h, t, p) do not influence the message.
Encoding the same dict again, a copy of it in any insertion order, or a dict with stale bitmaps gives the same bytes and the same encoded dictionary.""",
["inputs", "histories"], "all dicts (encodable or not), all insertion orders, repeated and interleaved add/remove/re-encode sequences",
"Tests check one dict with stale bitmaps; order independence and repeatability range over permutations and histories.",
[E], [("doc_dec.pop of '1'/'65' and bitmap assignment", E)], state=[("doc_dec", "caller's dict, mutated for bitmaps only", E)], observe=["the dict passed to encode"])

prop("C14", "Re-encoding a decoded message normalises it without loss",
"""For every message decode accepts (with bijective text encodings), the decoded dictionary can be encoded again under the same specification and the result decodes to the same header, type and field values; doing so twice changes nothing more.
If the message was canonical (upper-case text bitmaps, no empty announced bitmaps, configured pad nibble), re-encoding reproduces it byte for byte.""",
["inputs", "configurations"], "all accepted messages, canonical or not, mutated ones included",
"No test re-encodes a decoded message; the accepted language of the decoder is far larger than what tests sample.",
[E, D], [("decode", D), ("encode", E), ("symmetry of length and pad handling", E + " " + D)])

prop("C15", "Results depend only on the arguments, never on earlier calls",
"""In any sequence of encode, decode and pp calls with several specifications, including failing calls, specifications edited in place between calls and returned objects modified by the caller, every call gives the same result as the first call of a fresh process with the same arguments.
No call modifies its specification or input bytes, and returned objects are never shared with later results, the input or the specification, nor two entries of one result with each other.""",
["histories"], "all sequences of operations over several specifications, in-place specification edits and mutations of returned objects",
"Each test makes one call with a fresh deep copy of a specification; caching or aliasing across calls is invisible to them.",
[E, D, T, S], [("no module state is written by encode/decode/pp", E + " " + D + " " + T)], observe=["iso8583.encode", "iso8583.decode", "iso8583.pp", "the specification and input objects"])

prop("C16", "Concurrent calls do not disturb each other",
"""Calls of encode, decode and pp running at the same time in several threads on different messages, sharing one specification or using different ones, each return exactly what they return when run alone.
This holds wherever one call is suspended and another runs, also if a signal handler, specification mapping or stream makes calls in the midst of another call in the same thread.""",
["schedules", "inputs"], "all interleavings at source-line granularity of two or three calls on independent inputs",
"Tests are single threaded.",
[E, D, T], [("all working state is local to the call", E + " " + D + " " + T)], observe=["iso8583.encode", "iso8583.decode", "iso8583.pp"])

prop("C17", "Equivalent containers give identical results; others TypeError",
"""decode gives the same result for bytes, bytearray and their subclasses, and encode for dict and its subclasses; any mapping with the same content as a specification (read-only views, nested mappings, a JSON round trip) behaves like the dict.
Decoded dictionaries survive a JSON round trip and encode to the same bytes afterwards. Any other input type is rejected with TypeError before anything is processed.""",
["inputs", "configurations"], "all messages and dicts, all container kinds for input and specification",
"Tests check TypeError for five types and JSON in one documentation example; equivalence ranges over all inputs.",
[E, D], [("isinstance checks", E + " " + D), ("bytes() conversion of slices", D)])

prop("C18", "Settings documented as irrelevant do not affect the message",
"""Encoding and decoding are unaffected by settings documented to play no role: desc (present or not), the length encoding of a fixed field, an omitted len_count versus 'bytes', pads on text fields, byte-counted fields or even-length data, right_pad when left_pad is given for an encode,
maximum length, length type and unit of message type and bitmaps, the configuration of a disabled header, of field 65 and of fields not in the message, and unknown extra properties.""",
["configurations", "inputs"], "all specifications, messages, and changes to irrelevant settings",
"Tests never compare two specifications; each irrelevance claim is a relation between pairs of configurations.",
[E, D, S], [("field_spec lookups", E + " " + D), ("documentation of properties", S)])

prop("C19", "Length indicators are exact for every length",
"""For every length encoding (binary, BCD, any single-byte digit text encoding), indicator width and unit, every length from 0 to the indicator's capacity is written as exactly that number in exactly that many bytes and read back as that number.
One more than the capacity is rejected by encode instead of wrapping, widening or truncating, and a zero length means an empty value.""",
["inputs", "configurations"], "all lengths 0..capacity+1 for all indicator encodings, widths and units (enumerated up to the stated bound, sampled above)",
"Tests check lengths 0, 1, 16, 99, 256 for widths 1 and 2.",
[E, D], [("length branches of _encode_field", E), ("length branches of _decode_field", D)])

prop("C20", "Odd nibble data is padded and unpadded exactly",
"""For a binary field counted in nibbles, an odd number of digits is sent with the pad's first character added on the left if left_pad is set and otherwise on the right, the pad is not counted in the length, and decoding removes it again from that side only; even data is never padded or stripped.
Decoding rejects odd data that holds no configured pad in its place, and both directions reject odd data if no pad is configured. Pads of several characters use the first, in either letter case.""",
["inputs", "configurations"], "all hex values of odd and even length, all pad settings, fixed and variable fields, all positions in the message",
"Tests use the value 123 with pads 0 and F; values whose own digits equal the pad, other lengths, both pads and lower case are not sampled.",
[E, D], [("_add_pad_field", E), ("_remove_pad_field", D)])

prop("C21", "Fields are independent: a change affects only its own part",
"""Adding, removing or changing one field of a message changes, on the wire, only that field's own length and data bytes and its bitmap bits; all other parts keep their bytes, and decoding gives unchanged values for all other fields.
Splicing a field's bytes out of a message and clearing its bit yields a message that decodes to the same content without that field.""",
["inputs", "configurations"], "all messages, all fields in them, all replacement values",
"A relation between pairs of messages; tests look at messages one at a time.",
[E, D], [("per-field encoding loop", E), ("per-field decoding loop", D)])

prop("C22", "Pretty print shows every part once, in order, without loss",
"""pp prints for any decoded or encoded dictionary the header (if the specification enables one), type, primary bitmap, then all numeric entries in ascending numeric order, each exactly once, each line group starting with its key.
The printed literals of an entry, joined, evaluate to exactly the stored value, and for encoded dictionaries to the length bytes (omitted if empty) followed by the data bytes, however the value is folded.""",
["inputs", "configurations"], "all dictionaries from encode/decode or partial ones, all values (quotes, escapes, non-printable, empty, long), all widths",
"Tests compare literal output for a few digit strings; escaping and folding interact with arbitrary content and widths.",
[T], [("pp", T), ("_pp_field", T), ("_wrap_str_repr/_wrap_bytes_repr", T)], observe=["text written by iso8583.pp"])

prop("C23", "Pretty print honours the requested layout widths",
"""pp pads or cuts descriptions to exactly desc_width columns (none if it is 0 or negative), so values start in the same column for all entries; a value is folded only if it does not fit within line_width, continuation lines are aligned under the first piece, and pieces are as long as possible.
No line of a folded bytes value, or of a text value without escapes or quotes, exceeds line_width unless it holds a single character or byte.""",
["inputs", "configurations"], "all values and all integer desc_width/line_width settings, negative and tiny ones included",
"Tests check five width settings on fixed values.",
[T], [("indent computation in _pp_field", T), ("_wrap_str_repr/_wrap_bytes_repr", T)], observe=["text written by iso8583.pp"])

prop("C24", "Pretty print only writes, and only to its stream",
"""pp returns None, modifies neither dictionary nor specification, writes only through the write method of the given stream, or of sys.stdout as it is at the time of the call if none is given, and writes the same text to either.
The text depends only on the content of the dictionary, not on insertion order or earlier calls, also for entries of unexpected type, which are printed as their repr.""",
["inputs", "histories", "configurations"], "all dictionaries, streams and call sequences",
"Tests compare stdout and StringIO for one message.",
[T], [("pp stream selection", T)], observe=["streams passed to pp", "sys.stdout"])

prop("C25", "Shipped specifications are as documented and fully usable",
"""iso8583.specs.default and default_ascii define the header, type, bitmaps and every field 2-128 exactly as the module documentation lists them, share no mutable parts with each other, and are JSON compatible.
Under each of them every field accepts and round-trips every value up to its documented maximum in its documented wire form, and rejects longer ones (or any other width if fixed).""",
["inputs", "configurations"], "both shipped specifications, all their fields, all value lengths and contents",
"Tests overwrite the settings of the fields they use, so most of the 262 shipped entries are never exercised.",
[S], [("default", S), ("default_ascii", S)], observe=["iso8583.specs.default", "iso8583.specs.default_ascii", "iso8583.encode", "iso8583.decode"])

prop("C26", "The specification alone decides about header and type",
"""With header max_len 0 or less no header is emitted, expected or printed, whatever 'h' the dict holds; with a positive max_len the header (fixed or variable, any encoding) is required and comes first in the message, in both dictionaries and in print-outs.
The message type directly follows, is always required, and always occupies 4 bytes as text or 2 bytes as binary, whatever length the specification states for it; shorter or longer types are rejected.""",
["inputs", "configurations"], "all header and type configurations and values, present, absent, empty, short and long",
"Tests use one 6-character ascii header; variable, binary, nibble-counted and EBCDIC headers are unsampled.",
[E, D, T], [("_encode_header/_decode_header", E + " " + D), ("_encode_type/_decode_type", E + " " + D), ("header branch of pp", T)], observe=["iso8583.encode", "iso8583.decode", "iso8583.pp"])

prop("C27", "Any Python text encoding works, measured in encoded bytes",
"""Any Python text codec may be used for field data: the data on the wire is exactly the codec's encoding of the text, lengths and limits count encoded bytes (twice that in nibbles), not characters, and decoding applies the codec strictly.
Text the codec cannot represent and bytes it cannot decode raise EncodeError/DecodeError, as do unknown codec names and codecs that are not text encodings, without replacement characters.""",
["configurations", "inputs"], "all text codecs of the Python installation under all their aliases, all texts (multi-byte included), fixed and variable fields",
"Tests use ascii and cp500 with digits, for which characters and bytes coincide.",
[E, D], [("_encode_text_field", E), ("_decode_text_data", D)])

prop("C28", "Declared lengths are enforced exactly on both sides",
"""For a variable field every length up to max_len (within the indicator's capacity) is accepted and every greater one rejected, and for a fixed field exactly max_len is accepted, by encode and by decode alike, in bytes or nibbles as configured.
Neither side ever accepts or produces a field whose size differs from its length indicator or violates its limit.""",
["inputs", "configurations"], "all limits and all lengths around them, all data/length encodings, units, field numbers, neighbours",
"Tests check one over-limit and one short value for limits up to 17.",
[E, D], [("max_len comparisons", E + " " + D), ("slice length checks", D)])

prop("C29", "Results do not depend on the interpreter's mode or environment",
"""Every call gives the same result, error text and attributes included, in every Python process, whatever its options and environment: with assertions and docstrings removed (-O, -OO), bytes and all other warnings turned
into errors (-bb, -W error), development mode, any hash seed and locale, any environment variables and program arguments, any time and platform; and from wherever it is called: other threads, event loops, scripts and prompts, exception handlers, deep recursion, under tracing, without standard streams, whatever the decimal context. In particular no check of input rests on assertions, and no result on the iteration order of sets.""",
["configurations", "inputs"], "all calls, accepted and refused, in all interpreter modes, hash seeds and locales",
"Tests run in one mode with one hash seed.",
[E, D, T], [("validation in encode/decode", E + " " + D), ("sorted() over sets of fields", E + " " + D)], observe=["iso8583.encode", "iso8583.decode", "iso8583.pp"])

prop("C30", "Decoded messages translate between specifications and back",
"""The dictionary decode returns can be encoded, as it is, under any other specification that can carry its values (other encodings, length settings, header or bitmap settings), and decodes from there to the same type, field values and bitmaps.
Leftovers of the other specification (bitmap entries, a header the new one does not use) do no harm. Going back to the first specification reproduces the original bytes.""",
["inputs", "configurations", "histories"], "all messages encode makes, all chains of specifications that can carry their values",
"Tests never encode under one specification what was decoded under another.",
[E, D], [("decode", D), ("encode", E), ("doc_dec.pop of '1'/'65' and bitmap assignment", E)])

prop("C31", "Partial results of errors can be inspected and printed like complete ones",
"""The partial dictionaries carried by every DecodeError and EncodeError have the form of complete ones (text values; entries of exactly bytes 'len' and 'data'), the entry of the failing part included; the two of a DecodeError name the same parts; what they hold of the message is true (the encoded entries of a DecodeError, put together, are a beginning of the message; an EncodeError's failing entry holds nothing or the encoding of the value and its length); and pp prints them in the layout of complete ones,
every part that was processed before the failure included, as long as the specification describes the fields.""",
["inputs", "configurations", "fault_sequences"], "all refused messages and dicts, all widths",
"Tests print only complete dictionaries.",
[T, D, E], [("pp", T), ("doc_dec/doc_enc population before each check", D + " " + E)], observe=["text written by iso8583.pp", "DecodeError.doc_dec", "DecodeError.doc_enc", "EncodeError.doc_enc"])

prop("C32", "An interrupted call leaves nothing behind",
"""If a call of encode, decode or pp is ended half-way by an exception that is not its own (KeyboardInterrupt, MemoryError, an exception raised by the specification mapping, the stream or a codec), its arguments are unchanged except for encode's
bitmap entries, and every later call gives what it gives in a fresh process. An interruption such as KeyboardInterrupt reaches the caller as it is. Nothing stays locked, half updated or buffered.""",
["fault_sequences", "histories"], "all calls, all places at which they can be ended, all calls made afterwards",
"Tests never end a call from outside.",
[E, D, T], [("all working state is local to the call", E + " " + D + " " + T)], observe=["iso8583.encode", "iso8583.decode", "iso8583.pp"])

prop("C33", "Decoding is left to right: later bytes never change earlier parts",
"""What decode makes of a part depends only on the bytes up to the end of that part: two messages with the same first bytes give the same values and encoded entries for every part that ends within them, whether decoding goes on to succeed or fails.
So messages sent back to back can be split: decoding a stream names the first surplus byte, with the complete first message in the error's dictionaries.""",
["inputs", "configurations"], "all pairs of byte strings with common first bytes, all streams of messages",
"A relation between pairs of messages; tests look at messages one at a time.",
[D], [("idx threading through _decode_*", D), ("extra data check in decode", D)], observe=["iso8583.decode", "DecodeError.pos", "DecodeError.doc_dec"])

prop("C34", "Work and memory are bounded by the input, not by announced lengths",
"""The work and memory a call of decode, encode or pp takes grow at most linearly with the size of the message or values and the number of parts (pp: for a given line width). They do not depend on the numbers that length indicators announce or the specification
allows: a short message that announces 10**16 bytes is refused as cheaply as any other.""",
["inputs", "configurations"], "all messages and dicts, hostile ones included, all limits and indicator widths, large values",
"Tests use values of a few bytes and never measure.",
[D, E, T], [("length checks before slicing in _decode_field", D), ("length checks in _encode_field", E), ("_wrap_str_repr/_wrap_bytes_repr", T)], observe=["iso8583.encode", "iso8583.decode", "iso8583.pp"])

prop("C35", "Calls affect nothing but their arguments, results and stream",
"""encode, decode and pp, successful or not, write nothing to standard output or error (pp: unless that is its stream), issue no warnings, log nothing, read and write no file, environment variable or network, start no thread, and leave the global
state of the interpreter as it was: locale, decimal context, random numbers, recursion limit, signal handlers, hooks, import path, standard streams, garbage collector. Only a codec used for the first time may be imported.""",
["inputs", "configurations", "fault_sequences"], "all calls, valid and refused",
"Tests look at results only; an effect in a rare branch (a left-over print of a card number, a warning that is an error elsewhere) is invisible to them.",
[E, D, T], [("no global state is used", E + " " + D + " " + T)], observe=["iso8583.encode", "iso8583.decode", "iso8583.pp"])

prop("C36", "Nothing of a message stays behind once its results are dropped",
"""After encode, decode or pp has returned or raised and the caller has dropped what it passed and was given, the package holds no reference to the dict, bytes, stream or error and no copy of header or field data, in no cache, buffer or thread-local
storage. The memory of a process that handles messages for ever does not grow, and card data does not linger.""",
["histories", "inputs"], "all calls, valid and refused, all sequences of calls",
"Tests never look at what a call leaves in memory.",
[E, D, T], [("all working state is local to the call", E + " " + D + " " + T)], observe=["iso8583.encode", "iso8583.decode", "iso8583.pp", "objects reachable from the package"])

prop("C37", "Errors state their true reason, in the same words everywhere",
"""The message of every EncodeError and DecodeError states a defect that the failing part really has, in the words this kind of defect has in every part, field and specification: a size that is wrong or above the maximum, data that is not
hexadecimal, odd data, data the encoding cannot represent, an unknown encoding, a length that does not fit or is not a number, a missing or superfluous part, or the invalid keys, all of them and no others.""",
["inputs", "configurations", "fault_sequences"], "all refused messages and dicts, all kinds of defects in every kind of part",
"Tests check each text for one field, mostly ascii; which of the reasons is given depends on the defect, the part and its settings together.",
[E, D], [("raise EncodeError/DecodeError in each branch", E + " " + D)], observe=["EncodeError.msg", "DecodeError.msg"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert set(p["anchors"]) <= {"files", "state", "mechanism", "observe_at", "hook_needed"}
            f.write(json.dumps(p, ensure_ascii=True) + "\n")
    print(len(P), "properties")
