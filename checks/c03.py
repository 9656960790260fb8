from checks.common import *
from checks import mutate
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; a reference encoder builds the message, with liberties encode does not take (letter case of text bitmaps, announced empty bitmaps), "
    "and decode has to return exactly its content. Non-trivial: at least one field or a header"
)
ASSUMPTIONS = ("the reference encoder and decoder in pbt/model.py state the documented format", "text codecs of Python are trusted")


def content(src):
    spec, doc, res = gens.wire(src)
    note_case(src, spec, doc, res.wire)
    mark(src, spec, doc)
    dec, enc = must_decode(as_input(src, res.wire), spec)
    expect(dec, model.doc_dec(res.parts), "decoded dictionary")
    expect(enc, model.doc_enc(res.parts), "encoded dictionary")
    if len(doc) > 1:
        src.nontrivial(res.wire)


def giant(src):
    spec, doc = gens.giant(src)
    src.note(spec={k: spec[k] for k in doc}, sizes={k: len(v) for k, v in doc.items()})
    res = model.encode(doc, spec, gens.announce(src), gens.recaser(src))
    dec, enc = must_decode(as_input(src, res.wire), spec)
    expect(dec, model.doc_dec(res.parts), "decoded dictionary")
    expect(enc, model.doc_enc(res.parts), "encoded dictionary")
    src.nontrivial(res.wire)


def still_well_formed(src):
    """Messages changed at random, when the reference decoder finds them well formed."""
    spec, doc, res = gens.wire(src, most=4, dense=False, budget=60)
    wire = mutate.message(src, spec, res)
    note_case(src, spec, doc, wire)
    want = model.decode(wire, spec)
    if want.unspecified:
        raise Reject("unspecified")
    if not want.ok:
        src.label("malformed")
        return
    src.label("well formed")
    dec, enc = must_decode(as_input(src, wire), spec)
    expect(dec, model.doc_dec(want.parts), "decoded dictionary")
    expect(enc, model.doc_enc(want.parts), "encoded dictionary")
    src.nontrivial(wire)


TESTS = [RandomTest("content", content, 45000), RandomTest("still-well-formed", still_well_formed, 20000), RandomTest("giant", giant, 100, guided=False)]
