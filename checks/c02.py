from checks.common import *
from pbt.engine import RandomTest

RULE = HEADLINE + "; the bytes and the encoded dictionary are compared with an independent reference encoder. Non-trivial: at least one field or a header"
ASSUMPTIONS = ("the reference encoder in pbt/model.py states the documented format", "text codecs of Python are trusted to encode text")


def wire_format(src):
    spec, doc = gens.spec_and_doc(src)
    note_case(src, spec, doc)
    mark(src, spec, doc)
    want = model.encode(doc, spec)
    compare(src, spec, doc, want)
    if len(doc) > 1:
        src.nontrivial(want.wire)


def compare(src, spec, doc, want):
    if not want.ok:
        raise AssertionError(f"invalid case: {want.field} {want.kind} {want.sizes}")
    given = gens.litter(src, doc, spec)
    s, enc = must_encode(given, spec)
    if bytes(s) != want.wire:
        fail(f"encode produced {short(bytes(s))}, the format prescribes {short(want.wire)}{_where(s, want)}")
    expect(enc, model.doc_enc(want.parts), "encoded dictionary")


def giant(src):
    spec, doc = gens.giant(src)
    src.note(spec={k: spec[k] for k in doc}, sizes={k: len(v) for k, v in doc.items()})
    want = model.encode(doc, spec)
    compare(src, spec, doc, want)
    src.nontrivial(want.wire)


def _where(s, want):
    for p in want.parts:
        piece = p.len + p.data
        if bytes(s[p.start : p.start + len(piece)]) != piece:
            return f"; first difference in part {p.key!r}: expected length {short(p.len)} data {short(p.data)} at {p.start}"
    return ""


def one_field(src):
    """Every field number in turn, with freshly drawn settings."""
    n = gens.ALL_FIELDS[src.draw(len(gens.ALL_FIELDS))]
    spec, doc = gens.spec_and_doc(src, numbers=[n])
    note_case(src, spec, doc)
    want = model.encode(doc, spec)
    compare(src, spec, doc, want)
    src.nontrivial(want.wire)


TESTS = [RandomTest("wire-format", wire_format, 50000), RandomTest("one-field", one_field, 20000), RandomTest("giant", giant, 100, guided=False)]
