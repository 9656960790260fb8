import collections
import types

from checks.common import *
from checks.c04 import ODD_CODECS
from pbt import faults, sut
from pbt.engine import RandomTest

RULE = (
    "dicts with arbitrary keys (not strings, look-alikes of field numbers, undefined fields) and arbitrary values (wrong types, "
    "surrogates, huge) under random specifications; encode has to return or raise EncodeError, and TypeError for anything that is no dict. "
    "Non-trivial: the dict differs from a valid one in at least one entry"
)
ASSUMPTIONS = ("well-formed specifications define h, t, p and 1, and any of the fields", "values do not override the methods of built-in types")

KEYS = (
    "", " ", "h", "t", "p", "1", "2", "65", "64", "128", "129", "192", "193", "0", "-1", "+2", "2.0", "02", " 2", "2 ", "1_0", "1e1", "0x2", "²", "½",
    "٣", "３", "Ⅷ", "一", "T", "H", "P", "bitmap", "\x00", "\ud800", "9" * 50, "9" * 5000, "0" * 5000, "desc", "65\n", "b", None, 0, 1, 2, 65, -1, 3.0, True, False, b"2",
    b"t", (), ("2",), frozenset(), 10**30, float("nan"), complex(1, 2), Ellipsis, object, types.SimpleNamespace,
)  # fmt: skip


class Text(str):
    pass


VALUES = (
    None, 0, 1, -1, 2.5, True, False, b"", b"00", b"0200", bytearray(b"12"), [], ["0"], [1, 2], (), ("1",), {}, {"len": b"", "data": b""}, set(), object, object(), len,
    "", "0", "00", "0200", "G", "é", "\ud800", "\x00", " ", "²", "٣٣", "x" * 1000, "F" * 70000, Text("0200"), Text("ab"), memoryview(b"00"), range(3), float("inf"), 10**40,
    NotImplemented, 1j, types.SimpleNamespace(), ValueError("x"), "0x", "+1", "1_0", "-0",
)  # fmt: skip


def attempt(src, doc, spec):
    s, enc, err = encode(doc, spec)
    if err is None:
        src.label("accepted")
        check_entries(enc, "encode")
    else:
        src.label("rejected")
        if not isinstance(err, ValueError):
            fail("EncodeError is not a ValueError")
        str(err), repr(err)
        if not isinstance(err.field, str):
            fail(f"error field is {err.field!r}")
        src.label("failed in " + (err.field if err.field in ("h", "t", "p", "1") else "a field"))
    return err


def arbitrary(src):
    spec, doc = gens.spec_and_doc(src, most=3, dense=False, budget=60)
    for _ in range(1 + src.draw(4)):
        k = src.draw(4)
        if k == 0:
            doc[src.pick(KEYS)] = src.pick(list(doc.values())) if doc else "1"
        elif k == 1:
            doc[src.pick(KEYS)] = src.pick(VALUES)
        elif k == 2 and doc:
            doc[src.pick(list(doc))] = src.pick(VALUES)
        elif doc and src.chance(1, 3):
            doc.pop(src.pick(list(doc)))
        else:
            doc[str(src.draw(300))] = src.pick(VALUES)
    note_case(src, spec, doc)
    attempt(src, doc, spec)
    src.nontrivial(repr(doc), repr(spec))


DEEP = ()
for _ in range(20000):
    DEEP = (DEEP,)


class NoRepr:
    def __repr__(self):
        raise ZeroDivisionError("no repr")


NO_REPR = (10**5000, DEEP, NoRepr(), -(10**6000))


def keys_without_repr(src):
    spec, doc = gens.spec_and_doc(src, most=3, dense=False, budget=60)
    ks = [src.draw(len(NO_REPR)) for _ in range(1 + src.draw(3))]
    note_case(src, spec, dict(doc))
    src.note(keys_without_repr=ks)
    text = repr(doc), repr(spec)
    for k in ks:
        doc[NO_REPR[k]] = src.pick(VALUES)
    attempt(src, doc, spec)
    src.nontrivial(*text, repr(ks))


def shipped(src):
    spec = src.pick((sut.iso8583.specs.default, sut.iso8583.specs.default_ascii))
    doc = {"t": src.pick(("0200", "0200", "0200", "", "02000", None))}
    for _ in range(1 + src.draw(5)):
        k = str(src.draw(196)) if src.chance(2, 3) else src.pick(KEYS)
        doc[k] = src.pick(VALUES) if src.chance(1, 2) else gens.hexstr(src, src.draw(40))
    src.note(doc=doc)
    attempt(src, doc, spec)
    src.nontrivial(repr(doc))


def single_faults(src):
    spec, doc, names = faults.broken_doc(src, count=1 + src.draw(2), most=3, dense=False)
    for n in names:
        src.label("fault:" + n)
    note_case(src, spec, doc)
    attempt(src, doc, spec)
    src.nontrivial(repr(doc), repr(spec))


def odd_codecs(src):
    spec, doc = gens.spec_and_doc(src, most=3, dense=False, budget=60)
    spec = faults.own(spec)
    for _ in range(1 + src.draw(2)):
        k = src.pick(list(doc) + ["p", "1"])
        spec[k]["data_enc" if src.chance(2, 3) else "len_enc"] = src.pick(ODD_CODECS)
    note_case(src, spec, doc)
    attempt(src, doc, spec)
    src.nontrivial(repr(doc), repr(spec))


NOT_DICTS = (
    None, "", "0200", b"0200", bytearray(b"02"), 5, 1.0, [], [("t", "0200")], (), set(), {"t"}, object(), dict, types.MappingProxyType({"t": "0200"}),
    collections.UserDict({"t": "0200"}), collections.ChainMap({"t": "0200"}), iter(()), {"t": "0200"}.items(), {"t": "0200"}.keys(),
)  # fmt: skip


def not_a_dict(src):
    spec = gens.spec_for(src, 2)
    doc = NOT_DICTS[src.draw(len(NOT_DICTS))]
    src.note(doc=doc)
    try:
        r = sut.iso8583.encode(doc, spec)
    except TypeError:
        src.nontrivial(repr(doc), repr(spec))
        return
    except Exception as e:
        fail(f"encode of a {type(doc).__name__} raised {e!r} instead of TypeError")
    fail(f"encode of a {type(doc).__name__} returned {short(r)} instead of raising TypeError")


TESTS = [
    RandomTest("keys-without-repr", keys_without_repr, 2000),
    RandomTest("arbitrary", arbitrary, 24000),
    RandomTest("single-faults", single_faults, 14000),
    RandomTest("shipped-specifications", shipped, 14000),
    RandomTest("odd-codecs", odd_codecs, 8000),
    RandomTest("not-a-dict", not_a_dict, 1600),
]
