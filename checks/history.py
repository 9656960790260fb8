"""Calls as data: run on any copy of the package, with results that can be compared across copies."""

import copy
import io

from pbt.engine import fail
from pbt.sut import same, short


class Sink:
    def __init__(self):
        self.out = []

    def write(self, s):
        self.out.append(s)


def run(pkg, op, args):
    """Result of one call, as plain data, plus the live objects it returned."""
    try:
        if op == "encode":
            doc, spec = args
            s, enc = pkg.encode(doc, spec)
            return ("ok", type(s).__name__, bytes(s), copy.deepcopy(enc), copy.deepcopy(doc)), [s, enc]
        if op == "decode":
            s, spec = args
            dec, enc = pkg.decode(s, spec)
            return ("ok", copy.deepcopy(dec), copy.deepcopy(enc)), [dec, enc]
        if op == "pp":
            doc, spec, desc_width, line_width = args
            sink = Sink()
            r = pkg.pp(doc, spec, desc_width=desc_width, stream=sink, line_width=line_width)
            return ("ok", r, "".join(sink.out)), []
    except pkg.DecodeError as e:
        res = ("DecodeError", e.msg, str(e), bytes(e.s), e.pos, e.field, copy.deepcopy(e.doc_dec), copy.deepcopy(e.doc_enc))
        return res, [e.doc_dec, e.doc_enc]
    except pkg.EncodeError as e:
        res = ("EncodeError", e.msg, str(e), e.field, copy.deepcopy(e.doc_dec), copy.deepcopy(e.doc_enc))
        return res, [e.doc_enc]
    except Exception as e:
        return (type(e).__name__, str(e)), []


def clone(op, args):
    return tuple(copy.deepcopy(a) for a in args)


def agree(got, want, what):
    if not same(got, want):
        fail(f"{what}: got {short(got)}, a fresh process gives {short(want)}")
