import copy
import pickle

from checks.common import *
from checks import mutate
from pbt import faults, sut
from pbt.engine import RandomTest

RULE = (
    "errors raised by decode and encode on malformed messages and unencodable dicts are pickled with every protocol (C and pure Python pickler) "
    "and copied, twice, and every documented attribute compared. Non-trivial: an error was raised; counted per distinct error"
)
ASSUMPTIONS = ("dicts handed to encode contain picklable keys and values",)


class OwnDecodeError(sut.DecodeError):
    """What an application might derive to tell its own failures apart."""


class OwnEncodeError(sut.EncodeError):
    pass


ATTRS = {sut.DecodeError: ("msg", "s", "doc_dec", "doc_enc", "pos", "field"), sut.EncodeError: ("msg", "doc_dec", "doc_enc", "field")}
ATTRS[OwnDecodeError], ATTRS[OwnEncodeError] = ATTRS[sut.DecodeError], ATTRS[sut.EncodeError]


def compare(a, b, how):
    if type(a) is not type(b):
        fail(f"{how}: a {type(a).__name__} became a {type(b).__name__}")
    if not isinstance(b, ValueError):
        fail(f"{how}: no longer a ValueError")
    if str(a) != str(b) or a.args != b.args or repr(a) != repr(b):
        fail(f"{how}: text {str(a)!r} {a.args!r} became {str(b)!r} {b.args!r}")
    for n in ATTRS[type(a)]:
        x, y = getattr(a, n), getattr(b, n)
        if not same(x, y):
            fail(f"{how}: attribute {n} was {short(x)} and became {short(y)}")
    extra = set(vars(b)) ^ set(vars(a))
    if extra:
        fail(f"{how}: attributes differ in {sorted(extra)}")


def survive(src, err):
    snapshot = copy.deepcopy({n: getattr(err, n) for n in ATTRS[type(err)]})
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        for pick in (pickle, None) if proto == 2 else (pickle,):
            if pick is None:
                data = pickle._dumps(err, proto)
                back = pickle._loads(data)
                how = f"pickle (pure Python) protocol {proto}"
            else:
                back = pickle.loads(pickle.dumps(err, proto))
                how = f"pickle protocol {proto}"
            compare(err, back, how)
            compare(err, pickle.loads(pickle.dumps(back, proto)), how + " twice")
    for how, fn in (("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy)):
        back = fn(err)
        compare(err, back, how)
        compare(err, fn(back), how + " twice")
    # inside a container, as a result passed between processes
    box = pickle.loads(pickle.dumps({"e": [err, err]}))
    compare(err, box["e"][0], "pickle in a container")
    if box["e"][0] is not box["e"][1]:
        fail("pickle in a container: one error became two")
    for n, v in snapshot.items():
        if not same(getattr(err, n), v):
            fail(f"pickling changed attribute {n} of the original")
    src.nontrivial(str(err), repr(err.doc_dec), repr(err.doc_enc))
    src.label(type(err).__name__)


def decode_errors(src):
    if src.chance(3, 4):
        spec, doc, res, name, spec, wire = faults.broken_wire(src, budget=100)
    else:
        spec, doc, res = gens.wire(src, most=4, dense=False, budget=60)
        wire = mutate.message(src, spec, res)
    note_case(src, spec, None, wire)
    _, _, err = decode(as_input(src, wire), spec)
    if err is None:
        src.label("accepted")
        return
    survive(src, err)


def encode_errors(src):
    spec, doc, names = faults.broken_doc(src, most=3, budget=100, count=1 + src.draw(2))
    for k, v in list(doc.items()):
        if v is object:
            doc[k] = None
    note_case(src, spec, doc)
    _, _, err = encode(doc, spec)
    if err is None:
        return
    survive(src, err)


def constructed(src):
    """Errors as applications and tests construct them, from the documented arguments."""
    msg = src.pick(("", "message", "a: field b pos 3", "% {} {0}", "é\n", "x" * 200))
    field = src.pick(("h", "t", "p", "1", "2", "128", "192", ""))
    dec = src.pick(({}, {"t": "0200"}, {"2": "é", "p": ""}))
    enc = src.pick(({}, {"t": {"len": b"", "data": b"0200"}}))
    if src.chance(1, 2):
        s = as_input(src, bytes([src.draw(256) for _ in range(src.draw(6))]))
        pos = src.pick((0, 1, 4, 10**6))
        src.note(args=(msg, s, dec, enc, pos, field))
        err = src.pick((sut.DecodeError, OwnDecodeError))(msg, s, dec, enc, pos, field)
        text = f"{msg}: field {field} pos {pos}"
        if err.s is not s or err.pos != pos:
            fail("DecodeError does not hold the given input and position")
    else:
        src.note(args=(msg, dec, enc, field))
        err = src.pick((sut.EncodeError, OwnEncodeError))(msg, dec, enc, field)
        text = f"{msg}: field {field}"
    if str(err) != text:
        fail(f"the text is {str(err)!r} instead of {text!r}")
    if err.msg != msg or err.field != field or err.doc_dec is not dec or err.doc_enc is not enc:
        fail("the error does not hold the given attributes")
    survive(src, err)


TESTS = [
    RandomTest("decode-errors", decode_errors, 20000),
    RandomTest("encode-errors", encode_errors, 20000),
    RandomTest("constructed", constructed, 3000),
]
