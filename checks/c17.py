import array
import collections
import copy
import io
import json
import types

from checks.common import *
from checks import mutate
from pbt import faults, sut
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; the same call is made with bytes, bytearray and subclasses, dict and subclasses, and specifications held in read-only views, chained or "
    "custom mappings or rebuilt from JSON; outcomes (errors included) have to be identical. Other input types have to raise TypeError. "
    "Non-trivial: the message or dict holds at least one field; counted per distinct (message, container)"
)
ASSUMPTIONS = ("subclasses do not override the methods of bytes, bytearray and dict in ways that change their content",)


class B(bytes):
    pass


class BA(bytearray):
    def __repr__(self):
        return "<BA>"


class Secret(bytes):
    def __repr__(self):
        return "<secret>"

    __str__ = __repr__


class D(dict):
    pass


class Text(str):
    pass


class Named(str):
    """A text that introduces itself otherwise, as members of an enum.Enum with str do."""

    def __str__(self):
        return "Named.X"

    def __format__(self, how):
        return "Named.X"


class Number(int):
    pass


def _named(v):
    return Named(v) if type(v) is str else v


def _own(v):
    """The same text or number, of a subclass."""
    if type(v) is str:
        return Text(v)
    return Number(v) if type(v) is int else v


class Logged(dict):
    """A dict that notes what is read."""

    def __init__(self, *a):
        super().__init__(*a)
        self.log = []

    def __getitem__(self, k):
        self.log.append(k)
        return dict.__getitem__(self, k)


class View(collections.abc.Mapping):
    """A mapping that is no dict."""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class Falsy(View):
    """A mapping whose truth value says nothing about its content."""

    def __bool__(self):
        return False


def user_dict(d):
    return collections.UserDict(d)


def chain(d):
    ks = list(d)
    half = len(ks) // 2
    return collections.ChainMap({k: d[k] for k in ks[:half]}, {k: d[k] for k in ks[half:]})


SPEC_KINDS = {
    "copy": copy.deepcopy,
    "read-only view": lambda s: types.MappingProxyType({k: types.MappingProxyType(dict(v)) for k, v in s.items()}),
    "JSON": lambda s: json.loads(json.dumps(s)),
    "OrderedDict": lambda s: collections.OrderedDict((k, collections.OrderedDict(v)) for k, v in s.items()),
    "reversed order": lambda s: {k: dict(reversed(list(v.items()))) for k, v in reversed(list(s.items()))},
    "UserDict": lambda s: user_dict({k: user_dict(v) for k, v in s.items()}),
    "ChainMap": lambda s: chain({k: chain(v) for k, v in s.items()}),
    "Mapping": lambda s: View({k: View(v) for k, v in s.items()}),
    "falsy Mapping": lambda s: Falsy({k: Falsy(v) for k, v in s.items()}),
    "dict subclass": lambda s: D({k: D(v) for k, v in s.items()}),
    "shared entries": lambda s: _shared(s),
    "texts of an enumeration": lambda s: {k: {p: _named(x) if p not in ("desc", "len_count") else x for p, x in v.items()} for k, v in s.items()},
    "subclasses of str and int": lambda s: {Text(k): {Text(p): _own(x) for p, x in v.items()} for k, v in s.items()},
}
BYTES_KINDS = {"bytes": bytes, "bytearray": bytearray, "bytes subclass": B, "bytearray subclass": BA, "bytes with own repr": Secret}
DICT_KINDS = {
    "dict": dict,
    "dict subclass": D,
    "OrderedDict": collections.OrderedDict,
    "defaultdict": lambda d: collections.defaultdict(str, d),
    "logging dict": Logged,
    "reversed": lambda d: dict(reversed(list(d.items()))),
    "keys of a str subclass": lambda d: {_own(k): v for k, v in d.items()},
    "values of an enumeration": lambda d: {k: _named(v) for k, v in d.items()},
    "keys and values of a str subclass": lambda d: {_own(k): _own(v) for k, v in d.items()},
}


def _shared(s):
    """Equal entries become one object."""
    pool = {}
    return {k: pool.setdefault(repr(v), dict(v)) for k, v in s.items()}


def decoding(src):
    if src.chance(1, 3):
        spec, doc, res, name, spec, wire = faults.broken_wire(src, budget=100)
    else:
        spec, doc, res = gens.wire(src, most=5, budget=200)
        wire = res.wire
    note_case(src, spec, doc, wire)
    base = decode(bytes(wire), spec)
    src.label("accepted" if base[2] is None else "rejected")
    kind = src.pick(list(BYTES_KINDS))
    skind = src.pick(list(SPEC_KINDS))
    src.label("input: " + kind)
    src.label("specification: " + skind)
    data = BYTES_KINDS[kind](wire)
    same_outcome(decode(data, spec), base, f"decode of {kind}")
    other = SPEC_KINDS[skind](spec)
    same_outcome(decode(bytes(wire), other), base, f"decode with specification as {skind}")
    same_outcome(decode(data, other), base, f"decode of {kind} with specification as {skind}")
    if base[2] is not None:
        err = decode(data, other)[2]
        if err.s is not data:
            fail(f"the error does not hold the {kind} given to decode")
    else:
        back = json.loads(json.dumps(base[0]))
        expect(back, base[0], "JSON round trip of the decoded dictionary")
        if all(_bijective(k, base, spec) for k in base[0]):
            again = encode(back, other)
            same_outcome((again[0] and bytes(again[0]), again[1], again[2]), _bytes(encode(dict(base[0]), spec)), "encode after a JSON round trip")
    if len(doc) > 1:
        src.nontrivial(wire, kind, skind)


def _bijective(k, base, spec):
    return k in ("p", "1") or model.is_bin(spec[k]) or base[0][k].encode(spec[k]["data_enc"], "replace") == base[1][k]["data"]


def _bytes(r):
    return (r[0] if r[0] is None else bytes(r[0]), r[1], r[2])


def encoding(src):
    if src.chance(1, 3):
        spec, doc, names = faults.broken_doc(src, most=4, budget=100)
        if set(names) & {"bad_key_type", "wrong_type", "bad_key"}:
            raise Reject("plain content only")
    else:
        spec, doc = gens.spec_and_doc(src, most=5, budget=200)
    note_case(src, spec, doc)
    base_doc = dict(doc)
    base = _bytes(encode(base_doc, spec))
    src.label("accepted" if base[2] is None else "rejected")
    kind = src.pick(list(DICT_KINDS))
    skind = src.pick(list(SPEC_KINDS))
    src.label("dict: " + kind)
    src.label("specification: " + skind)
    given = DICT_KINDS[kind](doc)
    other = SPEC_KINDS[skind](spec)

    def check(got, what):
        if got[2] is not None and base[2] is not None:
            if str(got[2]) != str(base[2]) or got[2].field != base[2].field or not same(got[2].doc_enc, base[2].doc_enc):
                fail(f"{what}: {got[2]!r} versus {base[2]!r}")
        else:
            same_outcome(_bytes(got), base, what)

    check(encode(given, spec), f"encode of {kind}")
    if dict(given) != base_doc:
        fail(f"encode of {kind} leaves {short(dict(given))}, encode of a dict leaves {short(base_doc)}")
    check(encode(dict(doc), other), f"encode with specification as {skind}")
    given = DICT_KINDS[kind](doc)
    got = encode(given, other)
    check(got, f"encode of {kind} with specification as {skind}")
    if got[2] is not None and got[2].doc_dec is not given:
        fail(f"the error does not hold the {kind} given to encode")
    if len(doc) > 1:
        src.nontrivial(repr(doc), kind, skind)


def printing(src):
    spec, doc = gens.spec_and_doc(src, most=5, dense=False, budget=100)
    for fs in spec.values():
        fs.setdefault("desc", "A field")
    res = model.encode(doc, spec)
    given = src.pick((model.doc_dec(res.parts), model.doc_enc(res.parts)))
    note_case(src, spec, doc)
    base = sut.pp(given, spec)
    skind = src.pick(list(SPEC_KINDS))
    dkind = src.pick(("dict subclass", "read-only view", "ChainMap", "Mapping", "UserDict", "falsy Mapping", "keys of a str subclass"))
    src.label("specification: " + skind)
    src.label("dict: " + dkind)
    wrap = {
        "dict subclass": D,
        "read-only view": types.MappingProxyType,
        "ChainMap": chain,
        "Mapping": View,
        "UserDict": user_dict,
        "falsy Mapping": Falsy,
        "keys of a str subclass": lambda d: {_own(k): v for k, v in d.items()},
    }[dkind]
    for d, s, what in ((given, SPEC_KINDS[skind](spec), skind), (wrap(given), spec, dkind), (wrap(given), SPEC_KINDS[skind](spec), f"{dkind}, {skind}")):
        got = sut.pp(d, s)
        if got != base:
            fail(f"pp prints {short(got)} for {what} instead of {short(base)}")
    src.nontrivial(repr(given), skind, dkind)


class Untouchable(collections.abc.Mapping):
    def _no(self, *a):
        fail("a call with an argument of the wrong type used the specification before raising TypeError")

    __getitem__ = __iter__ = __len__ = __contains__ = get = keys = items = _no


NO_BYTES = (
    "0200", "", None, 5, 0, 2.0, [48, 50], (), [], {}, {"t": "0200"}, set(), object(), bytes, memoryview(b"02000000000000000000"), array.array("B", b"0200"),
    io.BytesIO(b"0200"), iter(b"0200"), range(4), True, [b"0200"], collections.UserString("0200"), (b"0", b"2"),
)  # fmt: skip
NO_DICTS = (
    "0200", "", None, 5, 0, [], [("t", "0200")], (), set(), {"t"}, object(), dict, b"0200", bytearray(b"02"), types.MappingProxyType({"t": "0200"}), View({"t": "0200"}),
    collections.UserDict({"t": "0200"}), collections.ChainMap({"t": "0200"}), {"t": "0200"}.items(), True, iter([("t", "0200")]), types.SimpleNamespace(t="0200"),
)  # fmt: skip


def wrong_types(src):
    fn, pool = (("decode", NO_BYTES), ("encode", NO_DICTS))[src.draw(2)]
    arg = pool[src.draw(len(pool))]
    k = src.draw(3)
    spec = gens.spec_for(src, 3) if k == 0 else Untouchable() if k == 1 else src.pick((None, {}, {"h": {}}))
    src.note(function=fn, argument=arg, spec=spec if k != 1 else "untouchable")
    before = copy.deepcopy(arg) if isinstance(arg, (list, dict, set, collections.UserDict, bytearray)) else None
    try:
        r = getattr(sut.iso8583, fn)(arg, spec)
    except TypeError as e:
        if not str(e):
            fail(f"{fn} raised TypeError without a text")
        if before is not None and arg != before:
            fail(f"{fn} changed its argument from {before!r} to {arg!r}")
        src.label(f"{fn} of {type(arg).__name__}")
        src.nontrivial(fn, type(arg).__name__, repr(arg)[:60], k)
        return
    except Exception as e:
        if isinstance(e, engine_violation):
            raise
        fail(f"{fn} of a {type(arg).__name__} raised {e!r} instead of TypeError")
    fail(f"{fn} of a {type(arg).__name__} returned {short(r)} instead of raising TypeError")


from pbt.engine import Violation as engine_violation  # noqa: E402

TESTS = [
    RandomTest("decoding", decoding, 16000),
    RandomTest("encoding", encoding, 16000),
    RandomTest("printing", printing, 6000),
    RandomTest("wrong-types", wrong_types, 3000),
]
