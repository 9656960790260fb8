from checks import mutate
from checks.common import *
from pbt import faults
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; messages (well-formed, changed, malformed or noise) that share their first bytes are decoded and every part that ends within the shared "
    "bytes is compared, whether the calls succeed or fail; streams of messages without separators are split by the errors for surplus data. "
    "Non-trivial: at least one part ends within the shared bytes; counted per distinct (pair of messages or stream)"
)
ASSUMPTIONS = ("the entry of the part in which decoding fails is not prescribed",)


def parts(wire, spec, src):
    """[(key, end, decoded, encoded)] of the parts that were decoded completely, and the error."""
    dec, enc, err = decode(as_input(src, wire), spec)
    if err is not None:
        dec, enc = dict(err.doc_dec), dict(err.doc_enc)
        if "xtra data" not in err.msg:
            dec.pop(err.field, None)
            enc.pop(err.field, None)
    check_entries(enc, "decode")
    if set(dec) != set(enc):
        fail(f"parts {sorted(dec)} are decoded and parts {sorted(enc)} encoded")
    out, end = [], 0
    for k in wire_order(enc):
        end += len(enc[k]["len"]) + len(enc[k]["data"])
        out.append((k, end, dec[k], enc[k]))
    return out, err


def message(src):
    k = src.draw(6)
    if k <= 1:
        spec, doc, res, name, spec, wire = faults.broken_wire(src, budget=100)
        return spec, wire
    spec, doc, res = gens.wire(src, most=5, budget=100)
    return spec, mutate.message(src, spec, res) if k <= 3 else res.wire


def other_end(src, spec, wire):
    """(wire2, how many bytes wire and wire2 have in common)"""
    cut = src.draw(len(wire) + 1)
    k = src.draw(5)
    if k == 0:
        two = wire[:cut]
    elif k == 1:
        two = wire[:cut] + mutate.noise(src)
    elif k == 2:
        two = wire[:cut] + bytes(src.draw(256) for _ in range(len(wire) - cut)) if len(wire) - cut < 200 else wire[:cut]
    elif k == 3:
        two = wire + mutate.noise(src)
    else:
        b = bytearray(wire)
        if cut < len(b):
            b[cut] ^= 1 + src.draw(255)
        two = bytes(b)
    n = 0
    while n < len(wire) and n < len(two) and wire[n] == two[n]:
        n += 1
    return two, n


def compare(src, spec, one, two, common):
    a, err_a = parts(one, spec, src)
    b, err_b = parts(two, spec, src)
    there = {k: (end, dec, enc) for k, end, dec, enc in b}
    shared = 0
    for k, end, dec, enc in a:
        if end > common:
            break
        shared += 1
        if k not in there:
            fail(f"part {k!r} ends at byte {end}; the messages are the same up to byte {common}, but only one of them has it ({err_a!r}, {err_b!r})")
        if not same(there[k], (end, dec, enc)):
            fail(f"part {k!r} ends at byte {end}; the messages are the same up to byte {common}, but it reads {short((dec, enc))} and {short(there[k][1:])}")
    src.label(f"{'accepted' if err_a is None else 'refused'} and {'accepted' if err_b is None else 'refused'}")
    return shared


def ends(src):
    spec, wire = message(src)
    two, common = other_end(src, spec, wire)
    note_case(src, spec, None, wire, other=two.hex())
    n = compare(src, spec, wire, two, common) + compare(src, spec, two, wire, common)
    if n:
        src.nontrivial(wire, two)


def stream(src):
    """Messages sent back to back."""
    spec = gens.spec_for(src, 6, 30)
    docs = [gens.doc_for(src, spec, 5, 30) for _ in range(1 + src.draw(5))]
    results = [model.encode(d, spec, gens.announce(src), gens.recaser(src)) for d in docs]
    k = src.draw(8)
    if k <= 3:
        tail = b""
    elif k == 4:
        tail = mutate.noise(src)
    elif k == 5:
        # padding and line ends, as files and links add them
        tail = src.pick((b"\n", b"\r\n", b"\r", b" ", b"\0", b"\xff", b"\x03", b"\x40", b"\x25", b"\x1a", b"F", b"0", b"\x15")) * (1 + src.draw(3) * src.draw(8))
    else:
        tail = bytes([src.draw(256)])
    s = b"".join(r.wire for r in results) + tail
    note_case(src, spec, None, s, messages=docs)
    for i, r in enumerate(results):
        dec, enc, err = decode(as_input(src, s), spec)
        end = len(r.wire)
        if end == len(s):
            if err is not None:
                fail(f"message {i}, the last one, is refused: {err}")
        else:
            if err is None:
                fail(f"message {i} is accepted with {len(s) - end} bytes behind it")
            if err.pos != end:
                fail(f"message {i} ends at byte {end}, the error says {err.pos} ({err})")
            dec, enc = err.doc_dec, err.doc_enc
        expect(dec, model.doc_dec(r.parts), f"message {i} of the stream")
        expect(enc, model.doc_enc(r.parts), f"message {i} of the stream, encoded dictionary")
        s = s[end:]
    if len(results) > 1:
        src.nontrivial([r.wire for r in results], tail)


TESTS = [RandomTest("ends", ends, 30000), RandomTest("stream", stream, 6000)]
